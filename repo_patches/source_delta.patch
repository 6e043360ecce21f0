From a0cd9fe4d6bc4d4ded2e3f4a2b8a085c86219d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 01/58] fix: keep the warp backend when optimizing a
 DelayedWarp

---
 delayed_image/delayed_nodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c59219a..661a234 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1757,6 +1757,7 @@ class DelayedWarp(DelayedImage):
             'antialias',
             'border_value',
             'noop_eps',
+            'backend',
         ]
 
     @property
-- 
2.43.0


From d87a5cff8d4b98e23acaf7213ef155d11634b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 02/58] fix: nearest warps must not fall back to the inverse
 transform

Scoring both matrix conventions by value diversity picks the wrong one
for downscaled, rotated or sheared content.
---
 delayed_image/delayed_nodes.py | 91 ++++------------------------------
 1 file changed, 10 insertions(+), 81 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 661a234..5db23a7 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1899,10 +1899,8 @@ class DelayedWarp(DelayedImage):
         )
         if matrix_mode == 'forward':
             M = np.asarray(transform)
-            alt_M = np.asarray(transform.inv())
         else:
             M = np.asarray(transform.inv())
-            alt_M = np.asarray(transform)
 
         # Determine antialiasing from the forward transform semantics.
         # (Passing the inverse transform directly would invert this heuristic.)
@@ -1962,85 +1960,16 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
-            # Robustness for runtime convention mismatches: evaluate both
-            # conventions and keep the better-scoring result.
-            cand1 = kwimage.warp_affine(
-                prewarp,
-                M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
-            cand2 = kwimage.warp_affine(
-                prewarp,
-                alt_M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
-
-            src_fin = np.isfinite(prewarp)
-            src_uniq = (
-                int(np.unique(prewarp[src_fin]).size) if src_fin.any() else 0
-            )
-
-            def _score(arr):
-                fin = np.isfinite(arr)
-                fin_ratio = float(fin.mean()) if fin.size else 0.0
-                uniq = int(np.unique(arr[fin]).size) if fin.any() else 0
-                # Prefer outputs with finite coverage and value diversity close
-                # to source for nearest-neighbor upscales.
-                uniq_gap = abs(uniq - src_uniq)
-                return (fin_ratio, -uniq_gap, uniq)
-
-            score1 = _score(cand1)
-            score2 = _score(cand2)
-            use_primary = score1 >= score2
-            final = cand1 if use_primary else cand2
-
-            # Last-resort rescue for pathological runtime stacks where both
-            # matrix conventions collapse to mostly NaNs.
-            if max(score1[0], score2[0]) < 0.05:
-                final = kwimage.imresize(
-                    prewarp, dsize=dsize, interpolation='nearest'
-                )
-
-            if os.environ.get('DELAYED_IMAGE_WARP_DEBUG', ''):
-                print(
-                    'DelayedWarp nearest matrix debug:',
-                    {
-                        'dtype': str(prewarp.dtype),
-                        'backend': backend,
-                        'matrix_mode': matrix_mode,
-                        'source_unique': src_uniq,
-                        'score_primary': score1,
-                        'score_alt': score2,
-                        'chosen': 'primary' if use_primary else 'alt',
-                        'is_near_scale_only': is_near_scale_only,
-                        'used_imresize_rescue': bool(
-                            max(score1[0], score2[0]) < 0.05
-                        ),
-                        'primary_preview': np.unique(cand1)[0:8].tolist(),
-                        'alt_preview': np.unique(cand2)[0:8].tolist(),
-                    },
-                )
-        else:
-            final = kwimage.warp_affine(
-                prewarp,
-                M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
+        final = kwimage.warp_affine(
+            prewarp,
+            M,
+            dsize=dsize,
+            interpolation=interpolation,
+            antialias=use_antialias,
+            border_value=warp_border_value,
+            origin_convention='corner',
+            backend=backend,
+        )
 
         # final = kwimage.warp_projective(sub_data_, M, dsize=dsize, flags=flags)
         # Ensure that the last dimension is channels
-- 
2.43.0


From a8998f5948619c4640ea36f2558ad341118760f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 03/58] fix: nearest translated warps may sample outside of the
 source

---
 delayed_image/delayed_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 5db23a7..d4753d3 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1866,8 +1866,8 @@ class DelayedWarp(DelayedImage):
                 if prewarp.ndim == 2:
                     final = np.full((out_h, out_w), fill, dtype=prewarp.dtype)
                     if valid.any():
-                        yy = yi[:, None]
-                        xx = xi[None, :]
+                        yy = yi.clip(0, in_h - 1)[:, None]
+                        xx = xi.clip(0, in_w - 1)[None, :]
                         final[valid] = prewarp[yy, xx][valid]
                 else:
                     num_chan = prewarp.shape[2]
@@ -1875,8 +1875,8 @@ class DelayedWarp(DelayedImage):
                         (out_h, out_w, num_chan), fill, dtype=prewarp.dtype
                     )
                     if valid.any():
-                        yy = yi[:, None]
-                        xx = xi[None, :]
+                        yy = yi.clip(0, in_h - 1)[:, None]
+                        xx = xi.clip(0, in_w - 1)[None, :]
                         sampled = prewarp[yy, xx]
                         final[valid, :] = sampled[valid, :]
                 if os.environ.get('DELAYED_IMAGE_WARP_DEBUG', ''):
-- 
2.43.0


From 11016ca93bc76b33f31ca599e8be8164e503db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 04/58] fix: nearest scale warps respect an explicit output
 size

The imresize fast path squeezed the whole image into dsize even when the
requested canvas crops or pads the scaled image.
---
 delayed_image/delayed_nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index d4753d3..b02ff06 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1843,13 +1843,17 @@ class DelayedWarp(DelayedImage):
                 theta < 1e-9 and shearx < 1e-9 and sx > 0 and sy > 0
             )
             has_translation = abs(tx) > 1e-9 or abs(ty) > 1e-9
+            out_w, out_h = map(int, dsize)
+            in_h, in_w = prewarp.shape[0:2]
+            # The output canvas may crop or pad the scaled image.
+            is_full_resize = (
+                abs(sx * in_w - out_w) < 1e-6 and abs(sy * in_h - out_h) < 1e-6
+            )
             if (
                 is_axis_aligned
-                and has_translation
+                and (has_translation or not is_full_resize)
                 and not isinstance(border_value, str)
             ):
-                out_w, out_h = map(int, dsize)
-                in_h, in_w = prewarp.shape[0:2]
                 x_in = (np.arange(out_w) - tx) / sx
                 y_in = (np.arange(out_h) - ty) / sy
                 xi = np.floor(x_in).astype(int)
@@ -1939,6 +1943,7 @@ class DelayedWarp(DelayedImage):
                 and abs(float(ty)) < 1e-9
                 and sx > 0
                 and sy > 0
+                and is_full_resize
             )
             # Deterministic fast-path: nearest + pure positive scale should
             # behave like nearest resize regardless of affine convention.
-- 
2.43.0


From 87b49c7e0b157b8962c4bca52cb71be85641c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 05/58] fix: absorbing an overview must not modify the input
 graph

The copied chain nodes shared their metadata with the original nodes, so
optimize changed the dsize of the unoptimized tree.
---
 delayed_image/delayed_nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index b02ff06..018e7d8 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2253,6 +2253,8 @@ class DelayedWarp(DelayedImage):
         else:
             # Copy the chain so this does not mutate the input
             chain = [copy.copy(n) for n in chain]
+            for n in chain:
+                n.meta = n.meta.copy()
             for u, v in ub.iter_window(chain, 2):
                 u.subdata = v
             tail = chain[-1]
@@ -2292,7 +2294,7 @@ class DelayedWarp(DelayedImage):
                 # And use this as the fixed way to grab the dsize.  Tests pass,
                 # but I'm leaving this note in here in case this change causes
                 # unforeseen issues.
-                new_chain_dsize = modified_tail.subdata.meta['dsize']
+                new_chain_dsize = modified_tail.subdata.dsize
 
                 tf1 = modified_tail.meta['transform']
                 # Remove the modified warp
@@ -2320,7 +2322,7 @@ class DelayedWarp(DelayedImage):
                 if DEBUG:
                     print('NO CROP OP')
                 tail.subdata = mimic_overview.subdata
-                new_chain_dsize = mimic_overview.subdata.meta['dsize']
+                new_chain_dsize = mimic_overview.subdata.dsize
                 for notcrop in chain:
                     notcrop.meta['dsize'] = new_chain_dsize
                 if TRACE_OPTIMIZE:
-- 
2.43.0


From ddc99adfd0cb560e4bceb679116a106f28f007ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 06/58] fix: optimizing a warp over an empty crop of an
 overview

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 018e7d8..f75d6da 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2273,6 +2273,9 @@ class DelayedWarp(DelayedImage):
                     print('Tail')
                     tail.print_graph()
                 modified_tail = tail._opt_warp_after_crop()
+                if modified_tail is tail:
+                    # Empty crops cannot be swapped with the warp
+                    return self
                 if DEBUG:
                     print('Modified Tail')
                     modified_tail.print_graph()
-- 
2.43.0


From 1a7d52c0f46f0bef7d870657c635b60dbca7260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 07/58] fix: pushing an overview under a warp or crop keeps
 dsize and warp options

The rewritten operation recomputed its own size and resampling options, so
optimizing could change the shape of the result.
---
 delayed_image/delayed_nodes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f75d6da..1c3699e 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3219,9 +3219,11 @@ class DelayedOverview(DelayedImage):
         # Move the crop to the outside
         new = new.crop(outer_crop, chan_idxs=chan_idxs)
 
-        if not np.all(np.isclose(np.eye(3), new_outer_warp)):
+        if new.dsize != self.dsize or not np.all(
+            np.isclose(np.eye(3), new_outer_warp)
+        ):
             # we might have to apply an additional warp at the end.
-            new = new.warp(new_outer_warp)
+            new = new.warp(new_outer_warp, dsize=self.dsize)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('_opt_crop_after_overview')
         return new
@@ -3284,8 +3286,9 @@ class DelayedOverview(DelayedImage):
         C = A @ B @ A.inv()
         new_outer = C
         new_inner_overview = outer_overview
+        warp_meta = ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
         new = self.subdata.subdata.get_overview(new_inner_overview)
-        new = new.warp(new_outer)
+        new = new.warp(new_outer, dsize=self.dsize, **warp_meta)
         if TRACE_OPTIMIZE:
             new._opt_logs.extend(self.subdata._opt_logs)
             new._opt_logs.append('_opt_warp_after_overview')
-- 
2.43.0


From b64990e45ffd0669a2cac0750bab8d84acd49260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 08/58] fix: DelayedNans keeps unnamed channels under crops and
 warps

---
 delayed_image/delayed_leafs.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index b576d19..5d5a2e1 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -11,6 +11,7 @@ import kwimage  # type: ignore[import-not-found]
 import numpy as np
 
 from delayed_image import delayed_base, delayed_nodes
+from delayed_image.channel_spec import FusedChannelSpec
 
 TRACE_OPTIMIZE = delayed_nodes.TRACE_OPTIMIZE
 
@@ -398,6 +399,13 @@ class DelayedNans(DelayedImageLeaf):
         final = np.full(shape, fill_value=np.nan)
         return final
 
+    def _effective_channels(self):
+        """
+        The channel spec if it is known, otherwise the number of channels
+        """
+        channels = self.channels
+        return self.num_channels if channels is None else channels
+
     def _optimized_crop(self, space_slice=None, chan_idxs=None):
         """
         Crops an image along integer pixel coordinates.
@@ -410,11 +418,12 @@ class DelayedNans(DelayedImageLeaf):
             DelayedImage
         """
         assert space_slice is not None
-        if chan_idxs is None:
-            channels = self.channels
-        else:
-            assert self.channels is not None
-            channels = self.channels[chan_idxs]
+        channels = self._effective_channels()
+        if chan_idxs is not None:
+            if isinstance(channels, FusedChannelSpec):
+                channels = channels[chan_idxs]
+            else:
+                channels = len(chan_idxs)
         dsize = self.dsize
         assert dsize is not None
         width, height = dsize
@@ -423,8 +432,8 @@ class DelayedNans(DelayedImageLeaf):
         data_dims = (height, width)
         data_slice, extra_pad = kwarray.embed_slice(space_slice, data_dims)
         box = kwimage.Boxes.from_slice(data_slice)
-        new_width = box.width.ravel()[0]
-        new_height = box.height.ravel()[0]
+        new_width = int(box.width.ravel()[0])
+        new_height = int(box.height.ravel()[0])
         new_dsize = (new_width, new_height)
         new = self.__class__(new_dsize, channels=channels, **self._kwargs)
         if TRACE_OPTIMIZE:
@@ -437,7 +446,9 @@ class DelayedNans(DelayedImageLeaf):
             DelayedImage
         """
         # Warping does nothing to nans, except maybe changing the dsize
-        new = self.__class__(dsize, channels=self.channels, **self._kwargs)
+        new = self.__class__(
+            dsize, channels=self._effective_channels(), **self._kwargs
+        )
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_warp')
         return new
-- 
2.43.0


From 48340352ad37bab5bebb42296fbb12aaaa514893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 09/58] fix: select channels of a concat with unnamed channels
 by index

---
 delayed_image/delayed_nodes.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 1c3699e..233efde 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -917,8 +917,6 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             # TODO: this API needs to be tested and verified so it works
             # correctly for integers indexes and string channel names.
             top_idx_mapping = channels
-            assert current_channels is not None
-            top_codes = current_channels.as_list()
             request_codes = None
         else:
             channels = FusedChannelSpec.coerce(channels)
-- 
2.43.0


From b73d75ad052f645a371738f47d615ef6d8d3eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 10/58] fix: channel selection with slices and negative indexes

Slices are documented, but only worked on some unoptimized graphs.
---
 delayed_image/delayed_nodes.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 233efde..8f4b57f 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -912,6 +912,7 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             return _as_image_like(self)
         current_channels = self.channels
 
+        channels = _rectify_chan_idxs(channels, self.num_channels)
         if isinstance(channels, list):
             # Allows channel selection via integer indexes
             # TODO: this API needs to be tested and verified so it works
@@ -1398,6 +1399,7 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
             >>> assert len(new.parts) == 2
             >>> new._validate()
         """
+        channels = _rectify_chan_idxs(channels, self.num_channels)
         if isinstance(channels, list):
             top_idx_mapping = [int(x) for x in channels]
         else:
@@ -2642,6 +2644,7 @@ class DelayedCrop(DelayedImage):
             self.meta['dsize'] = (in_w, in_h)
 
         if chan_idxs is not None:
+            chan_idxs = _rectify_chan_idxs(chan_idxs, self.num_channels)
             current_channels = self.channels
             if current_channels is not None:
                 new_channels = current_channels[chan_idxs]
@@ -3293,6 +3296,23 @@ class DelayedOverview(DelayedImage):
         return new
 
 
+def _rectify_chan_idxs(chan_idxs, num_channels):
+    """
+    Resolve slices and negative indexes into non-negative channel indexes.
+
+    Anything that does not select channels by index is returned as-is.
+    """
+    if num_channels is not None:
+        if isinstance(chan_idxs, slice):
+            return list(range(num_channels))[chan_idxs]
+        if isinstance(chan_idxs, list):
+            return [
+                idx + num_channels if -num_channels <= idx < 0 else idx
+                for idx in map(int, chan_idxs)
+            ]
+    return chan_idxs
+
+
 def _rectify_retain(remove, retain):
     if remove is not None or retain is None:
         valid_keys = {'offset', 'scale', 'shearx', 'theta'}
-- 
2.43.0


From 3e1b7d12c4fac6ff018e10ad0500905196f787ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 11/58] fix: number of remaining overviews when it is unknown
 or exhausted

---
 delayed_image/delayed_nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 8f4b57f..d87bdc4 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3061,13 +3061,16 @@ class DelayedOverview(DelayedImage):
         self.meta['dsize'] = (w, h)
 
     @property
-    def num_overviews(self) -> int:
+    def num_overviews(self) -> int | None:
         """
         Returns:
             int
         """
         # This operation reduces the number of available overviews
-        num_remain = self.subdata.num_overviews - self.meta['overview']
+        num_overviews = self.subdata.num_overviews
+        if num_overviews is None:
+            return None
+        num_remain = max(num_overviews - self.meta['overview'], 0)
         return num_remain
 
     def _finalize(self) -> ArrayLike:
-- 
2.43.0


From 9003d25d0df2b888a7105c07d62b460b408512f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 12/58] fix: simulated overviews have the size in the metadata

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index d87bdc4..16066df 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3097,7 +3097,7 @@ class DelayedOverview(DelayedImage):
         sub_final = np.asarray(sub_final)
         final = kwimage.imresize(
             sub_final,
-            scale=1 / 2**overview,
+            dsize=self.dsize,
             interpolation='nearest',
             # antialias=True
         )
-- 
2.43.0


From f41d223e0527b4b08b32744bf49009b720c858b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 13/58] fix: antialiased warps with a reflection

---
 delayed_image/delayed_nodes.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 16066df..0739304 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1896,6 +1896,16 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
+        if params is not None and params['scale'][1] < 0:
+            # kwimage cannot antialias a reflection, so flip the data first.
+            # (decompose always represents a reflection as a negative sy)
+            flip = kwimage.Affine.affine(
+                scale=(1, -1), offset=(0, prewarp.shape[0])
+            )
+            prewarp = prewarp[::-1]
+            transform = transform @ flip
+            params = transform.decompose()
+
         # delayed_image stores forward transforms, but kwimage.warp_affine
         # matrix semantics differ across some dependency stacks.
         matrix_mode = _warp_affine_matrix_mode(
@@ -2409,7 +2419,7 @@ class DelayedWarp(DelayedImage):
         # Check if there is a strict downsampling component
         transform = self.meta['transform']
         params = transform.decompose()
-        sx, sy = params['scale']
+        sx, sy = map(abs, params['scale'])
         if sx > 0.5 or sy > 0.5:
             return self
 
-- 
2.43.0


From 98a9d0c6f5777b0aaf6096a675bcd29aed658c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 14/58] fix: optimizing an overview that was rewritten into a
 concat

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 0739304..89c0c79 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3142,7 +3142,7 @@ class DelayedOverview(DelayedImage):
         elif isinstance2(new.subdata, DelayedDequantize):
             new = new._opt_dequant_after_overview()
             new = new.optimize(ctx)
-        if isinstance2(new.subdata, DelayedChannelConcat):
+        elif isinstance2(new.subdata, DelayedChannelConcat):
             pushed = new._opt_push_under_concat()
             if pushed is not new:
                 new = pushed.optimize(ctx)
-- 
2.43.0


From f13e0eec895f5d345a520f572f514b193fabe1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 15/58] fix: channel selection on a leaf with two dimensional
 data

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 89c0c79..85dbe45 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2677,6 +2677,9 @@ class DelayedCrop(DelayedImage):
             full_slice = space_slice
         else:
             full_slice = space_slice + (chan_idxs,)
+            if isinstance(sub_final, np.ndarray):
+                # The band axis is implicit in 2D data
+                sub_final = kwarray.atleast_nd(sub_final, 3)
         # final = sub_final[space_slice]
         final = sub_final[full_slice]
         final = kwarray.atleast_nd(final, 3)
-- 
2.43.0


From 7ba65d0a9ac4303f39eb2e5c20eeaf7c4b6fc169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 16/58] fix: lazy loaders slice with negative and out of bounds
 limits like numpy

Negative starts were clamped to zero, so the result was not the requested
region.
---
 delayed_image/lazy_loaders.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index bebed9d..1e86078 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1086,14 +1086,12 @@ def _rectify_slice_dim(part, D):
     if part is None:
         return slice(0, D)
     elif isinstance(part, slice):
-        start = 0 if part.start is None else max(0, part.start)
-        stop = D if part.stop is None else min(D, part.stop)
-        if stop < 0:
-            stop = D + stop
         assert part.step is None
-        part = slice(start, stop)
+        start, stop, _ = part.indices(D)
+        part = slice(start, max(start, stop))
         return part
     elif isinstance(part, int):
+        part = part + D if part < 0 else part
         part = slice(part, part + 1)
     elif isinstance(part, list):
         part = part
-- 
2.43.0


From 53b00e58ae665afeba054cdd74e97015a6963256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 17/58] fix: channel selection by name when a channel name is
 duplicated

---
 delayed_image/delayed_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 85dbe45..d02a4d1 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -927,12 +927,12 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             assert current_channels is not None
             # Compute subindex integer mapping
             request_codes = channels.as_list()
-            top_codes = current_channels.as_oset()
+            top_codes = current_channels.as_list()
             top_idx_mapping = []
             for code in request_codes:
                 try:
                     top_idx_mapping.append(top_codes.index(code))
-                except KeyError:
+                except ValueError:
                     top_idx_mapping.append(None)
 
         if missing_channel_policy == 'return_nan':
@@ -1416,12 +1416,12 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
                 return self
             # Computer subindex integer mapping
             request_codes = channels.as_list()
-            top_codes = current_channels.as_oset()
+            top_codes = current_channels.as_list()
             try:
                 top_idx_mapping = [
                     top_codes.index(code) for code in request_codes
                 ]
-            except KeyError:
+            except ValueError:
                 # If a requested channel doesn't exist we break this node up
                 # into a concat node so we can use its nan handing logic
                 # This should be easy to optimize if necessary.
-- 
2.43.0


From 326cd19d1ff955968697bb97d289dc22085ab2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 18/58] fix: simulated overview of an empty image

---
 delayed_image/delayed_nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index d02a4d1..f509255 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3108,6 +3108,12 @@ class DelayedOverview(DelayedImage):
             )
         )
         sub_final = np.asarray(sub_final)
+        if 0 in sub_final.shape[0:2]:
+            # There is nothing to resize in an empty image
+            dsize = self.dsize
+            assert dsize is not None
+            shape = (dsize[1], dsize[0]) + sub_final.shape[2:]
+            return np.zeros(shape, dtype=sub_final.dtype)
         final = kwimage.imresize(
             sub_final,
             dsize=self.dsize,
-- 
2.43.0


From a3e3c7d3bfa0be4fae9541d549e597c0ba937da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 19/58] fix: concatenating masked images keeps the masks

---
 delayed_image/delayed_nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f509255..e971967 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -788,7 +788,11 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             final = stack[0]
         else:
             stack = [kwarray.atleast_nd(s, 3) for s in stack]
-            final = np.concatenate(stack, axis=2)
+            if any(isinstance(s, np.ma.MaskedArray) for s in stack):
+                # numpy.concatenate ignores masks
+                final = np.ma.concatenate(stack, axis=2)
+            else:
+                final = np.concatenate(stack, axis=2)
         return final
 
     def optimize(
-- 
2.43.0


From df35e7e0bcef4267c0cde2bd73762b216f65a5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 20/58] fix: simulated overviews of masked images keep the mask

---
 delayed_image/delayed_nodes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index e971967..65b4134 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3111,7 +3111,7 @@ class DelayedOverview(DelayedImage):
             """
             )
         )
-        sub_final = np.asarray(sub_final)
+        sub_final = np.asanyarray(sub_final)
         if 0 in sub_final.shape[0:2]:
             # There is nothing to resize in an empty image
             dsize = self.dsize
@@ -3119,11 +3119,20 @@ class DelayedOverview(DelayedImage):
             shape = (dsize[1], dsize[0]) + sub_final.shape[2:]
             return np.zeros(shape, dtype=sub_final.dtype)
         final = kwimage.imresize(
-            sub_final,
+            np.asarray(sub_final),
             dsize=self.dsize,
             interpolation='nearest',
             # antialias=True
         )
+        if isinstance(sub_final, np.ma.MaskedArray):
+            mask = kwimage.imresize(
+                np.ma.getmaskarray(sub_final).astype(np.uint8),
+                dsize=self.dsize,
+                interpolation='nearest',
+            )
+            final = np.ma.array(
+                final, mask=mask, fill_value=sub_final.fill_value
+            )
         return final
 
     def optimize(
-- 
2.43.0


From 112ece53b3a71600a30e812469df4d9bbe790c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 21/58] fix: nearest warps of masked images keep the mask

---
 delayed_image/delayed_nodes.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 65b4134..bfad14b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1849,13 +1849,14 @@ class DelayedWarp(DelayedImage):
             has_translation = abs(tx) > 1e-9 or abs(ty) > 1e-9
             out_w, out_h = map(int, dsize)
             in_h, in_w = prewarp.shape[0:2]
+            is_masked = isinstance(prewarp, np.ma.MaskedArray)
             # The output canvas may crop or pad the scaled image.
             is_full_resize = (
                 abs(sx * in_w - out_w) < 1e-6 and abs(sy * in_h - out_h) < 1e-6
             )
             if (
                 is_axis_aligned
-                and (has_translation or not is_full_resize)
+                and (has_translation or not is_full_resize or is_masked)
                 and not isinstance(border_value, str)
             ):
                 x_in = (np.arange(out_w) - tx) / sx
@@ -1871,17 +1872,26 @@ class DelayedWarp(DelayedImage):
                     if ub.iterable(border_value)
                     else border_value
                 )
+                if is_masked:
+                    # There is no data outside of the source
+                    final = np.ma.array(
+                        np.zeros((out_h, out_w) + prewarp.shape[2:]),
+                        dtype=prewarp.dtype,
+                        mask=True,
+                        fill_value=prewarp.fill_value,
+                    )
+                else:
+                    final = np.full(
+                        (out_h, out_w) + prewarp.shape[2:],
+                        fill,
+                        dtype=prewarp.dtype,
+                    )
                 if prewarp.ndim == 2:
-                    final = np.full((out_h, out_w), fill, dtype=prewarp.dtype)
                     if valid.any():
                         yy = yi.clip(0, in_h - 1)[:, None]
                         xx = xi.clip(0, in_w - 1)[None, :]
                         final[valid] = prewarp[yy, xx][valid]
                 else:
-                    num_chan = prewarp.shape[2]
-                    final = np.full(
-                        (out_h, out_w, num_chan), fill, dtype=prewarp.dtype
-                    )
                     if valid.any():
                         yy = yi.clip(0, in_h - 1)[:, None]
                         xx = xi.clip(0, in_w - 1)[None, :]
-- 
2.43.0


From 79e0c2f97fe5882f63249b831fd85f3fda96c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 22/58] fix: optimized DelayedNodata keeps a modified nodata
 method

---
 delayed_image/delayed_leafs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index 5d5a2e1..3deabce 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -399,6 +399,12 @@ class DelayedNans(DelayedImageLeaf):
         final = np.full(shape, fill_value=np.nan)
         return final
 
+    def _effective_kwargs(self):
+        """
+        Extra constructor arguments, which may have been modified in the meta
+        """
+        return {key: self.meta[key] for key in self._kwargs}
+
     def _effective_channels(self):
         """
         The channel spec if it is known, otherwise the number of channels
@@ -435,7 +441,7 @@ class DelayedNans(DelayedImageLeaf):
         new_width = int(box.width.ravel()[0])
         new_height = int(box.height.ravel()[0])
         new_dsize = (new_width, new_height)
-        new = self.__class__(new_dsize, channels=channels, **self._kwargs)
+        new = self.__class__(new_dsize, channels=channels, **self._effective_kwargs())
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_crop')
         return new
@@ -447,7 +453,7 @@ class DelayedNans(DelayedImageLeaf):
         """
         # Warping does nothing to nans, except maybe changing the dsize
         new = self.__class__(
-            dsize, channels=self._effective_channels(), **self._kwargs
+            dsize, channels=self._effective_channels(), **self._effective_kwargs()
         )
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_warp')
-- 
2.43.0


From c31da97946636b35a9e71909ff4e210990064ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 23/58] fix: squash_nans only modifies the returned warp of
 squashed parts

---
 delayed_image/delayed_nodes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index bfad14b..8d67319 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1601,7 +1601,7 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
         undo_components = ub.dict_diff(all_undo_components, retain)
         undo_warp = kwimage.Affine.coerce(undo_components)
         undone_part = part.warp(undo_warp).optimize()
-        if squash_nans:
+        if squash_nans and isinstance2(undone_part, delayed_leafs.DelayedNans):
             if return_warp:
                 # hack the return undo_warp
                 assert undone_part.dsize is not None
@@ -1609,8 +1609,7 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
                 assert w is not None
                 assert h is not None
                 undo_warp = kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp
-            if isinstance2(undone_part, delayed_leafs.DelayedNans):
-                undone_part = undone_part[0:1, 0:1].optimize()
+            undone_part = undone_part[0:1, 0:1].optimize()
         if return_warp:
             return undone_part, undo_warp
         else:
-- 
2.43.0


From 41a12aed708b1db0ceb793c1323ca8dafdae6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 24/58] fix: a lazy crop of the entire image still selects
 channels

---
 delayed_image/delayed_nodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 8d67319..1d4d656 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -336,6 +336,7 @@ class ImageOpsMixin:
                 and (sl_x.start is None or sl_x.start == 0)
                 and (sl_x.stop is None or sl_x.stop == w)
                 and (not pad)
+                and chan_idxs is None
             )
             if is_noop:
                 return _as_image_like(self)
-- 
2.43.0


From 47fa9afea41abb002d4c9b152c4c7dfc59b36268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 25/58] fix: selecting a single channel with an integer keeps
 the channel axis

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 1d4d656..00c0051 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2668,6 +2668,9 @@ class DelayedCrop(DelayedImage):
             self.meta['dsize'] = (in_w, in_h)
 
         if chan_idxs is not None:
+            if isinstance(chan_idxs, (int, np.integer)):
+                # The channel axis is always kept
+                chan_idxs = [int(chan_idxs)]
             chan_idxs = _rectify_chan_idxs(chan_idxs, self.num_channels)
             current_channels = self.channels
             if current_channels is not None:
-- 
2.43.0


From 1233f1a04e058545b3c1cb04b40dea0e4fda2da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 26/58] fix: padding does not erase the valid pixels next to it

---
 delayed_image/delayed_nodes.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 00c0051..8ea8c2f 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1910,6 +1910,37 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
+        if prewarp.dtype.kind == 'f' and not isinstance(
+            prewarp, np.ma.MaskedArray
+        ):
+            # An integral translation has nothing to interpolate, and doing so
+            # would spread nan fill values over the adjacent valid pixels.
+            M = np.asarray(transform).astype(float)
+            offset = np.round(M[0:2, 2])
+            fill = np.ravel(border_value)
+            if (
+                fill.dtype.kind == 'f'
+                and np.isnan(fill).all()
+                and np.array_equal(M[:, 0:2], np.eye(3)[:, 0:2])
+                and np.array_equal(M[0:2, 2], offset)
+            ):
+                tx, ty = map(int, offset)
+                out_w, out_h = map(int, dsize)
+                in_h, in_w = prewarp.shape[0:2]
+                final = np.full(
+                    (out_h, out_w) + prewarp.shape[2:],
+                    np.nan,
+                    dtype=prewarp.dtype,
+                )
+                y0, y1 = max(ty, 0), min(ty + in_h, out_h)
+                x0, x1 = max(tx, 0), min(tx + in_w, out_w)
+                if y0 < y1 and x0 < x1:
+                    final[y0:y1, x0:x1] = prewarp[
+                        y0 - ty : y1 - ty, x0 - tx : x1 - tx
+                    ]
+                final = kwarray.atleast_nd(final, 3, front=False)
+                return final
+
         if params is not None and params['scale'][1] < 0:
             # kwimage cannot antialias a reflection, so flip the data first.
             # (decompose always represents a reflection as a negative sy)
-- 
2.43.0


From 3f96e5fb2b99be877d94760062b84ef4b49b881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 27/58] fix: per channel border values follow the channels
 selected by a crop

---
 delayed_image/delayed_nodes.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 8ea8c2f..f6aa45b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3039,6 +3039,13 @@ class DelayedCrop(DelayedImage):
             ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
         )
 
+        border_value = warp_meta.get('border_value', None)
+        if outer_chan_idxs is not None and _is_per_channel(border_value):
+            # The border values have to follow the selected channels
+            if len(outer_chan_idxs) > 4:
+                return self
+            warp_meta['border_value'] = [border_value[i] for i in outer_chan_idxs]
+
         new_inner = self.subdata.subdata.crop(inner_slice, outer_chan_idxs)
         new_outer = new_inner.warp(outer_transform, **warp_meta)
         if TRACE_OPTIMIZE:
@@ -3392,6 +3399,17 @@ def _rectify_chan_idxs(chan_idxs, num_channels):
     return chan_idxs
 
 
+def _is_per_channel(border_value):
+    """
+    True if a border value specifies a different value for each channel
+    """
+    return (
+        not isinstance(border_value, str)
+        and ub.iterable(border_value)
+        and len(border_value) > 1
+    )
+
+
 def _rectify_retain(remove, retain):
     if remove is not None or retain is None:
         valid_keys = {'offset', 'scale', 'shearx', 'theta'}
-- 
2.43.0


From 526b2f413730d955ff1a30b8dae483ee27cbd926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 28/58] fix: nearest warps with per channel border values

---
 delayed_image/delayed_nodes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f6aa45b..f8d85cf 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1867,11 +1867,13 @@ class DelayedWarp(DelayedImage):
                 valid_y = (yi >= 0) & (yi < in_h)
                 valid = valid_y[:, None] & valid_x[None, :]
 
-                fill = (
-                    border_value[0]
-                    if ub.iterable(border_value)
-                    else border_value
-                )
+                fill = border_value
+                if ub.iterable(border_value):
+                    if len(border_value) != num_chan:
+                        # The same value was repeated up to 4 times
+                        fill = border_value[0]
+                    elif prewarp.ndim == 2:
+                        fill = border_value[0]
                 if is_masked:
                     # There is no data outside of the source
                     final = np.ma.array(
-- 
2.43.0


From d5ce06a88677280199c66347cfdeb8e76710620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 29/58] fix: each part of a concat gets its own border values

---
 delayed_image/delayed_nodes.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f8d85cf..58b80b3 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2133,6 +2133,21 @@ class DelayedWarp(DelayedImage):
     def _transform_from_subdata(self):
         return self.transform
 
+    def _opt_push_under_concat(self):
+        """
+        Push this node under its child node if it is a concatenation operation
+        """
+        new = super()._opt_push_under_concat()
+        border_value = self.meta['border_value']
+        if new is not self and _is_per_channel(border_value):
+            # Give each part the border values of its own channels
+            start = 0
+            for part in new.parts:
+                stop = start + part.num_channels
+                part.meta['border_value'] = border_value[start:stop]
+                start = stop
+        return new
+
     def _opt_fuse_warps(self):
         """
         Combine two consecutive warps into a single operation.
-- 
2.43.0


From acbdaeea930b8c904177ae46883816ec12829e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 30/58] fix: crops of cubic and lanczos warps keep the context
 the kernel needs

---
 delayed_image/delayed_nodes.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 58b80b3..8951819 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3056,6 +3056,23 @@ class DelayedCrop(DelayedImage):
             ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
         )
 
+        # Larger interpolation kernels need more context around the crop
+        extra = {'cubic': 1, 'lanczos': 3}.get(
+            warp_meta.get('interpolation', None), 0
+        )
+        if extra:
+            extra *= int(np.ceil(1 / min(abs(sx), abs(sy), 1)))
+            inner_y, inner_x = inner_slice
+            lt_x = min(int(inner_x.start), extra)
+            lt_y = min(int(inner_y.start), extra)
+            inner_slice = (
+                slice(inner_y.start - lt_y, max(inner_y.stop, 0) + extra),
+                slice(inner_x.start - lt_x, max(inner_x.stop, 0) + extra),
+            )
+            outer_transform = outer_transform @ kwimage.Affine.translate(
+                (-lt_x, -lt_y)
+            )
+
         border_value = warp_meta.get('border_value', None)
         if outer_chan_idxs is not None and _is_per_channel(border_value):
             # The border values have to follow the selected channels
-- 
2.43.0


From 492d3c0d526d1f995a20f2fc1b7432da98246d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 31/58] fix: quantizing to a wide integer type or from a narrow
 float does not overflow

---
 delayed_image/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index 219d326..55ab861 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -565,9 +565,10 @@ def quantize_float01(imdata, old_min=0, old_max=1, quantize_dtype=np.int16):
 
     if imdata is not None:
         invalid_mask = np.isnan(imdata)
-        new_imdata = (
-            imdata.clip(old_min, old_max) - old_min
-        ) * quant_factor + quantize_min
+        # The largest quantized values may not be representable as (or may
+        # overflow) a smaller floating point type.
+        clipped = imdata.clip(old_min, old_max).astype(np.float64)
+        new_imdata = (clipped - old_min) * quant_factor + quantize_min
         new_imdata = new_imdata.astype(quantize_dtype)
         new_imdata[invalid_mask] = quantize_nan
     else:
-- 
2.43.0


From de9864736a47ad776b21b6b45b5f424a8f54c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 32/58] fix: warps by a power of two keep their options when
 the overview needs resampling

---
 delayed_image/delayed_nodes.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 8951819..6a31810 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2504,7 +2504,19 @@ class DelayedWarp(DelayedImage):
         new_transform = residual_transform
         dsize = self.meta['dsize']
         overview = inner_data.get_overview(num_downs)
-        if new_transform.isclose_identity():
+        common_meta = ub.dict_isect(self.meta, self._algo_keys)
+        is_pow2 = new_transform.isclose_identity()
+        if is_pow2 and (
+            inner_data.subdata is not None
+            or dsize[0] > overview.dsize[0]
+            or dsize[1] > overview.dsize[1]
+        ):
+            # Moving the overview further down may need to resample, and
+            # padding needs a border value. These must use our options.
+            new = overview.warp(None, dsize=dsize, **common_meta)
+            if TRACE_OPTIMIZE:
+                new._opt_logs.append('Factor out overview from power of 2 warp')
+        elif is_pow2:
             new = overview
             if new.dsize != dsize:
                 # The warp must have had an implicit crop
@@ -2519,7 +2531,6 @@ class DelayedWarp(DelayedImage):
                 if TRACE_OPTIMIZE:
                     new._opt_logs.append('Rewrite power of 2 warp as overview')
         else:
-            common_meta = ub.dict_isect(self.meta, self._algo_keys)
             new = overview.warp(new_transform, dsize=dsize, **common_meta)
             if TRACE_OPTIMIZE:
                 new._opt_logs.append('Factor out overview from warp')
-- 
2.43.0


From 5373226fc1f0c671a9f3485cd65240004eebe1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 33/58] fix: an empty crop stays empty under an overview

---
 delayed_image/delayed_nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 6a31810..7096a1e 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3345,6 +3345,12 @@ class DelayedOverview(DelayedImage):
             inner_region, outer_transform
         )
 
+        # An empty crop stays empty, even if it is inside of an overview pixel
+        outer_crop = tuple(
+            slice(o.start, o.start) if i.start >= i.stop else o
+            for o, i in zip(outer_crop, inner_slices)
+        )
+
         # Move the overview to the inside, it should be unchanged
         new = self.subdata.subdata.get_overview(outer_overview)
 
-- 
2.43.0


From bd1f56414ee738c7e99a4ec82dfe8fe3ed8097f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 34/58] fix: a crop of a warp that does not touch the data
 keeps its transform

---
 delayed_image/delayed_nodes.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 7096a1e..a11ba15 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3062,6 +3062,20 @@ class DelayedCrop(DelayedImage):
                 outer_region, inner_transform, origin_convention='corner'
             )
 
+        # A window that does not touch the data is an empty crop at its border
+        src_w, src_h = self.subdata.subdata.dsize
+        inner_y, inner_x = inner_slice
+        beyond_x = max(int(inner_x.start) - src_w, 0)
+        beyond_y = max(int(inner_y.start) - src_h, 0)
+        inner_slice = tuple(
+            slice(sl.start - beyond, max(sl.stop, sl.start - beyond))
+            for sl, beyond in [(inner_y, beyond_y), (inner_x, beyond_x)]
+        )
+        if beyond_x or beyond_y:
+            outer_transform = outer_transform @ kwimage.Affine.translate(
+                (-beyond_x, -beyond_y)
+            )
+
         warp_meta = ub.dict_isect(self.meta, {'dsize'})
         warp_meta.update(
             ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
-- 
2.43.0


From 5951fc0f6934e3ea478456ad94330925c4995348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 35/58] fix: the automatic size of an image moved to negative
 coordinates is empty

---
 delayed_image/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index 55ab861..eb31fee 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -87,8 +87,9 @@ def _auto_dsize(transform, sub_dsize):
         # bounds = kwimage.warp_points(transform.matrix, sub_bounds)[0:2]
         bounds = (transform.matrix[0:2] @ sub_bounds.T).T
         max_xy = np.ceil(bounds.max(axis=0))
-    max_x = int(max_xy[0])
-    max_y = int(max_xy[1])
+    # The result is empty if everything maps to negative coordinates
+    max_x = max(int(max_xy[0]), 0)
+    max_y = max(int(max_xy[1]), 0)
     dsize = (max_x, max_y)
     return dsize
 
-- 
2.43.0


From 0c53742c0c6b2cc9e631846bdaf7067ad1500007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 36/58] fix: absorbing an overview uses the overview that fits
 the remaining warp

---
 delayed_image/delayed_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index a11ba15..3005f34 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2124,7 +2124,10 @@ class DelayedWarp(DelayedImage):
                 new.subdata = new.subdata.optimize(ctx)
                 new = new.optimize(ctx)
             else:
-                new = new._opt_absorb_overview()
+                absorbed = new._opt_absorb_overview()
+                if absorbed is not new:
+                    # The remaining warp may still shrink the image
+                    new = absorbed.optimize(ctx)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('optimize DelayedWarp')
         memo[self] = new
-- 
2.43.0


From 264502c7c9cc220169e1a4d9a41ba2f8d12994a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 37/58] fix: a reflected magnification absorbs overviews too

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 3005f34..a3c7293 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2241,7 +2241,7 @@ class DelayedWarp(DelayedImage):
         # New Optimized Code:
         from delayed_image.helpers import _decompose_scale
 
-        sx, sy = _decompose_scale(transform)
+        sx, sy = map(abs, _decompose_scale(transform))
 
         eps = 1e-8
         twoish = 2 - eps
-- 
2.43.0


From 233a74c1ccf7fb7dbcff0b889467b69fdcf2e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 38/58] fix: read files of 8 and 64 bit integers

---
 delayed_image/lazy_loaders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 1e86078..41b8fc0 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -115,6 +115,10 @@ _GDAL_DTYPE_LUT = {
     9: complex_,
     10: np.complex64,
     11: np.complex128,
+    # Since GDAL 3.5 and 3.7
+    12: np.uint64,
+    13: np.int64,
+    14: np.int8,
 }
 
 
-- 
2.43.0


From a9c75a2989034abc728c87c0797928d41d312e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 39/58] fix: padding a masked image keeps and extends its mask

---
 delayed_image/delayed_nodes.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index a3c7293..f5385ae 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1912,28 +1912,39 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
-        if prewarp.dtype.kind == 'f' and not isinstance(
-            prewarp, np.ma.MaskedArray
-        ):
+        is_masked = isinstance(prewarp, np.ma.MaskedArray)
+        if prewarp.dtype.kind == 'f' or is_masked:
             # An integral translation has nothing to interpolate, and doing so
             # would spread nan fill values over the adjacent valid pixels.
             M = np.asarray(transform).astype(float)
             offset = np.round(M[0:2, 2])
             fill = np.ravel(border_value)
+            if is_masked:
+                is_empty_fill = self.meta['border_value'] == 'auto'
+            else:
+                is_empty_fill = fill.dtype.kind == 'f' and np.isnan(fill).all()
             if (
-                fill.dtype.kind == 'f'
-                and np.isnan(fill).all()
+                is_empty_fill
                 and np.array_equal(M[:, 0:2], np.eye(3)[:, 0:2])
                 and np.array_equal(M[0:2, 2], offset)
             ):
                 tx, ty = map(int, offset)
                 out_w, out_h = map(int, dsize)
                 in_h, in_w = prewarp.shape[0:2]
-                final = np.full(
-                    (out_h, out_w) + prewarp.shape[2:],
-                    np.nan,
-                    dtype=prewarp.dtype,
-                )
+                if is_masked:
+                    # There is no data outside of the source
+                    final = np.ma.array(
+                        np.zeros((out_h, out_w) + prewarp.shape[2:]),
+                        dtype=prewarp.dtype,
+                        mask=True,
+                        fill_value=prewarp.fill_value,
+                    )
+                else:
+                    final = np.full(
+                        (out_h, out_w) + prewarp.shape[2:],
+                        np.nan,
+                        dtype=prewarp.dtype,
+                    )
                 y0, y1 = max(ty, 0), min(ty + in_h, out_h)
                 x0, x1 = max(tx, 0), min(tx + in_w, out_w)
                 if y0 < y1 and x0 < x1:
-- 
2.43.0


From b053aafe44f4b97d242fc4f7a38329f7bb53dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 40/58] fix: masked reads mask a nodata value of nan

---
 delayed_image/lazy_loaders.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 41b8fc0..2cb9be6 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -122,6 +122,15 @@ _GDAL_DTYPE_LUT = {
 }
 
 
+def _equals_nodata(data, nodata):
+    """
+    Find where data is the nodata value, which can be nan.
+    """
+    if nodata != nodata:
+        return np.isnan(data)
+    return np.equal(data, nodata)
+
+
 def _gdal_read_kwimage_compatible(
     gdal_dset,
     overview,
@@ -234,7 +243,7 @@ def _gdal_read_kwimage_compatible(
             if band_nodata is None:
                 mask = np.zeros(buf.shape, dtype=bool)
             else:
-                mask = np.equal(buf, band_nodata)
+                mask = _equals_nodata(buf, band_nodata)
             if color_table is not None:
                 table_chans = idx_to_color.shape[1]
                 mask = np.tile(mask[:, :, None], (1, 1, table_chans))
@@ -266,7 +275,7 @@ def _gdal_read_kwimage_compatible(
             if nodata_method is not None:
                 band_nodata = band_nodata_values[idx]
                 if band_nodata is not None:
-                    np.equal(buf, band_nodata, out=mask[:, :, idx])
+                    mask[:, :, idx] = _equals_nodata(buf, band_nodata)
 
     if nodata_method is not None:
         if nodata_method == 'ma':
@@ -737,7 +746,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
                 ).GetNoDataValue()
                 mask = np.zeros(image.shape, dtype=bool)
                 if band_nodata is not None:
-                    np.equal(image, band_nodata, out=mask)
+                    mask = _equals_nodata(image, band_nodata)
             else:
                 mask = np.zeros(image.shape, dtype=bool)
                 for idx, band_num in enumerate(band_list):
@@ -745,8 +754,8 @@ class LazyGDalFrameFile(ub.NiceRepr):
                         band_num
                     ).GetNoDataValue()
                     if band_nodata is not None:
-                        np.equal(
-                            image[..., idx], band_nodata, out=mask[..., idx]
+                        mask[..., idx] = _equals_nodata(
+                            image[..., idx], band_nodata
                         )
 
             if nodata_method == 'ma':
-- 
2.43.0


From b5a0e1ef4527edda69505a1d7041326bad247333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 41/58] fix: padded crops keep just the requested bands

---
 delayed_image/delayed_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f5385ae..bc2b23a 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -354,7 +354,7 @@ class ImageOpsMixin:
                 )
             # Currently padding doesn't really work with crops, so its not
             # efficient, but we can hack it to work with warps.
-            new = self._padded_crop(space_slice, pad=pad)
+            new = self._padded_crop(space_slice, pad=pad, chan_idxs=chan_idxs)
         else:
             # Normal efficient case
             # FIXME: This is using index-based slices and it there needs to be
@@ -419,7 +419,7 @@ class ImageOpsMixin:
         # return self.warp(adjusted_transform, dsize=dsize, interpolation='linear')
         return self.warp(transform, dsize=dsize, interpolation='linear')
 
-    def _padded_crop(self, space_slice, pad=0):
+    def _padded_crop(self, space_slice, pad=0, chan_idxs=None):
         """
         Does the type of padded crop we want, but inefficiently using a warp.
         Reimplementing would be good, but this is good enough for now.
@@ -443,7 +443,7 @@ class ImageOpsMixin:
             int(data_crop_box.width.ravel()[0] + offset_d1 + extra_d1),
             int(data_crop_box.height.ravel()[0] + offset_d0 + extra_d0),
         )
-        new = self.crop(_data_slice)
+        new = self.crop(_data_slice, chan_idxs)
         if any([offset_d0, extra_d0, offset_d1, extra_d1]):
             # Use a warp to accomplish padding.
             # Having an explicit padding node would be better.
-- 
2.43.0


From 5e794f71061bebf7e2a560d277878023bdaf566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 42/58] fix: crops with a step raise instead of ignoring it

---
 delayed_image/delayed_nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index bc2b23a..6816583 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -322,6 +322,12 @@ class ImageOpsMixin:
             >>> assert result2 is self
             >>> assert result3 is not self
         """
+        if space_slice is not None:
+            if any(sl.step not in {None, 1} for sl in space_slice):
+                raise NotImplementedError(
+                    'crops with a step are not implemented'
+                )
+
         if lazy:
             # If we are in lazy mode and we can detect the crop wont do
             # anything then skip it.
-- 
2.43.0


From 18a2a5ad46830b459c6b0688f77a64b0cce1488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 43/58] fix: exporting a masked image to xarray keeps nodata
 hidden (and 2D data works without channel names)

---
 delayed_image/delayed_nodes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 6816583..ac6e6b3 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1655,13 +1655,14 @@ class DelayedAsXarray(DelayedImage):
         """
         import xarray as xr
 
-        subfinal = np.asarray(self.subdata._finalize())
+        # Xarray represents masked data with nans
+        subfinal = np.asanyarray(self.subdata._finalize()[:])
+        if len(subfinal.shape) == 2:
+            subfinal = subfinal[:, :, None]
         channels = self.subdata.channels
         coords = {}
         if channels is not None:
             coords['c'] = channels.code_list()
-            if len(subfinal.shape) == 2:
-                subfinal = subfinal[:, :, None]
         final = xr.DataArray(subfinal, dims=('y', 'x', 'c'), coords=coords)
         return final
 
-- 
2.43.0


From 24d807537401285299fa19e25782b0ed4523ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 44/58] fix: interpolating warps of masked data keep nodata out
 of the valid pixels

---
 delayed_image/delayed_nodes.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index ac6e6b3..fef96b7 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1961,6 +1961,16 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
+        if is_masked:
+            # Represent hidden values as nan, otherwise they would be blended
+            # into the visible ones.
+            is_hidden = np.ma.getmaskarray(prewarp)
+            masked_dtype, fill_value = prewarp.dtype, prewarp.fill_value
+            prewarp = prewarp.astype(np.result_type(masked_dtype, np.float32))
+            prewarp = prewarp.filled(np.nan)
+            if self.meta['border_value'] == 'auto':
+                border_value = (np.nan,) * min(4, num_chan)
+
         if params is not None and params['scale'][1] < 0:
             # kwimage cannot antialias a reflection, so flip the data first.
             # (decompose always represents a reflection as a negative sy)
@@ -1968,6 +1978,8 @@ class DelayedWarp(DelayedImage):
                 scale=(1, -1), offset=(0, prewarp.shape[0])
             )
             prewarp = prewarp[::-1]
+            if is_masked:
+                is_hidden = is_hidden[::-1]
             transform = transform @ flip
             params = transform.decompose()
 
@@ -2019,6 +2031,7 @@ class DelayedWarp(DelayedImage):
                 and sx > 0
                 and sy > 0
                 and is_full_resize
+                and not is_masked
             )
             # Deterministic fast-path: nearest + pure positive scale should
             # behave like nearest resize regardless of affine convention.
@@ -2040,9 +2053,7 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
-        final = kwimage.warp_affine(
-            prewarp,
-            M,
+        warp_kwargs = dict(
             dsize=dsize,
             interpolation=interpolation,
             antialias=use_antialias,
@@ -2050,6 +2061,23 @@ class DelayedWarp(DelayedImage):
             origin_convention='corner',
             backend=backend,
         )
+        final = kwimage.warp_affine(prewarp, M, **warp_kwargs)
+
+        if is_masked:
+            hidden = np.isnan(final)
+            if masked_dtype.kind == 'f':
+                # Visible data might also contain nans
+                prewarp = np.where(is_hidden, np.nan, 0).astype(prewarp.dtype)
+                hidden &= np.isnan(
+                    kwimage.warp_affine(prewarp, M, **warp_kwargs)
+                )
+            final = np.where(hidden, fill_value, final)
+            if masked_dtype.kind in 'iu':
+                info = np.iinfo(masked_dtype)
+                final = final.round().clip(info.min, info.max)
+            final = np.ma.array(
+                final.astype(masked_dtype), mask=hidden, fill_value=fill_value
+            )
 
         # final = kwimage.warp_projective(sub_data_, M, dsize=dsize, flags=flags)
         # Ensure that the last dimension is channels
-- 
2.43.0


From c3c4c874f26b5ea03f15c41c1ce19b0f993b0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 45/58] fix: keep the dtype of dequantized masked images

---
 delayed_image/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index eb31fee..7a6c8f3 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -480,6 +480,9 @@ def dequantize(quant_data, quantization):
         )
     dequant = quant_data.astype(orig_dtype)
     dequant = (dequant - quant_min) * scale + orig_min
+    if np.dtype(orig_dtype).kind == 'f':
+        # Arithmetic of masked arrays promotes float32
+        dequant = dequant.astype(orig_dtype, copy=False)
     if nodata is not None:
         if _scalar_is_representable_in_dtype(nodata, quant_data.dtype):
             if DEBUG_ARRAY_EVENTS:
-- 
2.43.0


From 9790ff7fb3f9cbac28f40247ecd07406c1935f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 46/58] fix: do not share handles of relative paths between
 working directories

---
 delayed_image/lazy_loaders.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 2cb9be6..6918028 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -600,8 +600,10 @@ class LazyGDalFrameFile(ub.NiceRepr):
             ext = '.' + _read_envi_header(_fpath)['interleave']
             _fpath = ub.augpath(_fpath, ext=ext)
 
-        if GLOBAL_GDAL_CACHE is not None and _fpath in GLOBAL_GDAL_CACHE:
-            self._ds_cache = GLOBAL_GDAL_CACHE[_fpath]
+        # A relative path is another file in another working directory
+        cache_key = os.path.abspath(_fpath)
+        if GLOBAL_GDAL_CACHE is not None and cache_key in GLOBAL_GDAL_CACHE:
+            self._ds_cache = GLOBAL_GDAL_CACHE[cache_key]
         else:
             ds = gdal.Open(_fpath, gdal.GA_ReadOnly)
             if ds is None:
@@ -618,7 +620,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
                 )
             self._ds_cache = ds
             if GLOBAL_GDAL_CACHE is not None:
-                GLOBAL_GDAL_CACHE[_fpath] = ds
+                GLOBAL_GDAL_CACHE[cache_key] = ds
 
     def get_overview(self, overview):
         """
-- 
2.43.0


From 322c1736222fb08139383afd0130bea8691c393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:35 +0000
Subject: [PATCH 47/58] fix: selecting by index with the error policy for
 missing channels works on concatenations

---
 delayed_image/delayed_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index fef96b7..174214a 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -951,10 +951,10 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             ...
         elif missing_channel_policy == 'error':
             # do a quick check for missing channels outside of the core logic
-            assert request_codes is not None
+            # (channels that are selected by index always exist)
             missing_channels = [
                 code
-                for idx, code in zip(top_idx_mapping, request_codes)
+                for idx, code in zip(top_idx_mapping, request_codes or [])
                 if idx is None
             ]
             if missing_channels:
-- 
2.43.0


From 7cd03a0bcca2660de3a87352bce6dea4aa7086c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 48/58] fix: integer interpolation codes act like their names

---
 delayed_image/delayed_nodes.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 174214a..eaf7445 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -9,6 +9,7 @@ import os
 import re
 import warnings
 from collections.abc import Iterable as IterableABC
+from numbers import Integral
 from typing import TYPE_CHECKING, cast
 
 import kwarray
@@ -1789,7 +1790,7 @@ class DelayedWarp(DelayedImage):
             dsize = None
         antialias = self.meta['antialias']
         transform = self.meta['transform']
-        interpolation = self.meta['interpolation']
+        interpolation = _interpolation_code(self.meta['interpolation'])
         backend = self.meta['backend']
 
         prewarp = self.subdata._finalize()
@@ -2855,7 +2856,9 @@ class DelayedCrop(DelayedImage):
             # pixel-corner conventions. Keep them in-place, but allow the
             # rewrite for non-nearest warps where it recovers much smaller
             # intermediates without tripping the nearest off-by-one cases.
-            interp = new.subdata.meta.get('interpolation', None)
+            interp = _interpolation_code(
+                new.subdata.meta.get('interpolation', None)
+            )
             if interp != 'nearest':
                 pushed = new._opt_warp_after_crop()
                 if pushed is not new:
@@ -3132,7 +3135,7 @@ class DelayedCrop(DelayedImage):
 
         # Larger interpolation kernels need more context around the crop
         extra = {'cubic': 1, 'lanczos': 3}.get(
-            warp_meta.get('interpolation', None), 0
+            _interpolation_code(warp_meta.get('interpolation', None)), 0
         )
         if extra:
             extra *= int(np.ceil(1 / min(abs(sx), abs(sy), 1)))
@@ -3513,6 +3516,16 @@ def _rectify_chan_idxs(chan_idxs, num_channels):
     return chan_idxs
 
 
+def _interpolation_code(interpolation):
+    """
+    The interpolation code of a cv2 integer
+    """
+    if isinstance(interpolation, Integral):
+        codes = {0: 'nearest', 1: 'linear', 2: 'cubic', 3: 'area', 4: 'lanczos'}
+        interpolation = codes.get(int(interpolation), interpolation)
+    return interpolation
+
+
 def _is_per_channel(border_value):
     """
     True if a border value specifies a different value for each channel
-- 
2.43.0


From 72d9c8f0ec39b08cadad1bd34c14e905299d2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 49/58] fix: rotated windows that only touch the top left
 border keep the pixels there

---
 delayed_image/helpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index 7a6c8f3..169d85d 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -255,6 +255,10 @@ def _swap_warp_after_crop(in_crop2, in_warp1, origin_convention='corner'):
     # Quantize to a region that is possible to sample from
     leaf_crop_box = leaf_region_box.quantize(inplace=True)
 
+    # A region that only touches the top left border still samples the first
+    # row or column, even if nothing of its box is left after the clip.
+    touch_w, touch_h = (int(v >= 0) for v in leaf_crop_box.data[2:4])
+
     # is this ok?
     # leaf_crop_box = leaf_crop_box.clip(0, 0, None, None, inplace=True)
     # Optimized clip
@@ -298,12 +302,12 @@ def _swap_warp_after_crop(in_crop2, in_warp1, origin_convention='corner'):
         if ZERO_WORKAROUND and old_w == 0:
             padw = 0
         else:
-            padw = int(np.ceil(leaf_w / old_w))
+            padw = max(int(np.ceil(leaf_w / old_w)), touch_w)
 
         if ZERO_WORKAROUND and old_h == 0:
             padh = 0
         else:
-            padh = int(np.ceil(leaf_h / old_h))
+            padh = max(int(np.ceil(leaf_h / old_h)), touch_h)
 
     else:
         padw, padh = 1, 1
-- 
2.43.0


From 672bde4c2d08a64850f9ecc4647dbf1d4f3b8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:28 +0000
Subject: [PATCH 50/58] fix: an empty band selection of a concatenation keeps
 the size of the image

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index eaf7445..cc29861 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1016,6 +1016,9 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
         new_components = [
             curr.get_subcomponent(self.dsize) for curr in outer_accum
         ]
+        if not new_components:
+            # An empty selection still has the size of the image
+            new_components = [part.take_channels([]) for part in self.parts[:1]]
         new = DelayedChannelConcat(new_components)
         return _as_image_like(new)
 
-- 
2.43.0


From 74c53eed1812edda5aa6d93d552eb06d936ae2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:28 +0000
Subject: [PATCH 51/58] fix: the compatible GDAL read path returns empty band
 selections

---
 delayed_image/lazy_loaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 6918028..2285e9f 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -787,6 +787,9 @@ class LazyGDalFrameFile(ub.NiceRepr):
 
     def _compat_gdal_read(self, ds, band_indices, gdalkw, nodata_method):
         selected_bands = tuple(self._read_bands[idx] for idx in band_indices)
+        if not selected_bands:
+            ysize, xsize = gdalkw['win_ysize'], gdalkw['win_xsize']
+            return np.empty((ysize, xsize, 0), dtype=self.dtype)
         if nodata_method is None:
             selected_nodata_values = None
         else:
-- 
2.43.0


From 269114b65049178e1f5fcc178da1ef77dca02e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:32 +0000
Subject: [PATCH 52/58] fix: renders of single band images always have the
 reported channel axis

---
 delayed_image/delayed_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_base.py b/delayed_image/delayed_base.py
index d5d5f88..c49a165 100644
--- a/delayed_image/delayed_base.py
+++ b/delayed_image/delayed_base.py
@@ -446,6 +446,9 @@ class DelayedOperation:
         # Ensure we are array like
         final = final[:]
         # final = np.asanyarray(final) # does not work with xarray
+        if isinstance(final, np.ndarray) and final.ndim == 2:
+            # Some leafs represent the channel axis of a single band implicitly
+            final = final[:, :, None]
         return final
 
     def optimize(self, ctx=None):
-- 
2.43.0


From bd821ff473620fca36b7729de15436695edcbc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:18 +0000
Subject: [PATCH 53/58] fix: lazy loaders refuse slices with a step also
 without assertions

---
 delayed_image/lazy_loaders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 2285e9f..05fc8b2 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1104,7 +1104,8 @@ def _rectify_slice_dim(part, D):
     if part is None:
         return slice(0, D)
     elif isinstance(part, slice):
-        assert part.step is None
+        if part.step not in {None, 1}:
+            raise IndexError('slices with a step are not supported')
         start, stop, _ = part.indices(D)
         part = slice(start, max(start, stop))
         return part
-- 
2.43.0


From 6d288586cf0def8d269227a0a0ef0321f5605bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:33 +0000
Subject: [PATCH 54/58] fix: lazy loaders refuse too many indices and accept an
 ellipsis of no axes

---
 delayed_image/lazy_loaders.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 05fc8b2..f060687 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -345,6 +345,8 @@ class LazySpectralFrameFile(ub.NiceRepr):
             n = 3 - len(index)
             index = index + [None] * n
 
+        if len(index) > 3:
+            raise IndexError('too many indices: {}'.format(index))
         ypart = _rectify_slice_dim(index[0], height)
         xpart = _rectify_slice_dim(index[1], width)
         channel_part = _rectify_slice_dim(index[2], C)
@@ -460,6 +462,8 @@ class LazyRasterIOFrameFile(ub.NiceRepr):
             n = 3 - len(index)
             index = index + [None] * n
 
+        if len(index) > 3:
+            raise IndexError('too many indices: {}'.format(index))
         ypart = _rectify_slice_dim(index[0], height)
         xpart = _rectify_slice_dim(index[1], width)
         channel_part = _rectify_slice_dim(index[2], C)
@@ -1026,7 +1030,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
             # Expand the ellipsis
             ell_idx = index.index(Ellipsis)
             n = 1 + TOTAL_DIMS - len(index)
-            if n > 0:
+            if n >= 0:
                 index = (
                     index[:ell_idx]
                     + ([slice(None, None)] * n)
@@ -1040,6 +1044,8 @@ class LazyGDalFrameFile(ub.NiceRepr):
                 index = index + [slice(None, None)] * n
                 # index = index + [None] * n
 
+        if len(index) > 3:
+            raise IndexError('too many indices: {}'.format(index))
         ypart = _rectify_slice_dim(index[0], height)
         xpart = _rectify_slice_dim(index[1], width)
         channel_part = _rectify_slice_dim(index[2], C)
-- 
2.43.0


From 1005ba79749c8665aa552011766a5d2079e21055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:30 +0000
Subject: [PATCH 55/58] fix: refuse nodata methods without GDAL instead of
 ignoring them

---
 delayed_image/delayed_leafs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index 3deabce..b12c62d 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -246,8 +246,8 @@ class DelayedLoad(DelayedImageLeaf):
                     self.fpath, nodata_method=nodata_method
                 )
             else:
-                if nodata_method == 'auto':
-                    raise Exception('need gdal for auto no-data')
+                if nodata_method is not None:
+                    raise Exception('need gdal to handle no-data')
                 self.lazy_ref = NotImplemented
         return self
 
-- 
2.43.0


From bd5bde0e22b64a48a20185584046519626eeb6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:44 +0000
Subject: [PATCH 56/58] fix: do not crop below warps with reflect, replicate or
 wrap borders

---
 delayed_image/delayed_nodes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index cc29861..1a1822d 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3041,6 +3041,13 @@ class DelayedCrop(DelayedImage):
         assert isinstance2(self.subdata, DelayedWarp)
         if 0 in self.meta.get('dsize', ()):
             return self
+        border_value = self.subdata.meta.get('border_value', None)
+        if isinstance(border_value, str) and border_value not in {
+            'auto',
+            'constant',
+        }:
+            # The border depends on data outside of the window (e.g. reflect)
+            return self
         # Inner is the data closer to the leaf (disk), outer is the data closer
         # to the user (output).
         outer_slices = self.meta['space_slice']
-- 
2.43.0


From 7959810731801dc4617fe88e2098117a482b31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:16 +0000
Subject: [PATCH 57/58] fix: use a given border value in nearest warps of
 masked data

---
 delayed_image/delayed_nodes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 1a1822d..901bf8c 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1886,11 +1886,19 @@ class DelayedWarp(DelayedImage):
                     elif prewarp.ndim == 2:
                         fill = border_value[0]
                 if is_masked:
-                    # There is no data outside of the source
+                    # There is no data outside of the source, unless the user
+                    # specified what it is.
+                    is_empty_fill = (
+                        self.meta['border_value'] == 'auto'
+                        or np.isnan(fill).all()
+                    )
                     final = np.ma.array(
-                        np.zeros((out_h, out_w) + prewarp.shape[2:]),
+                        np.full(
+                            (out_h, out_w) + prewarp.shape[2:],
+                            0 if is_empty_fill else fill,
+                        ),
                         dtype=prewarp.dtype,
-                        mask=True,
+                        mask=is_empty_fill,
                         fill_value=prewarp.fill_value,
                     )
                 else:
-- 
2.43.0


From 3fc29253bd4b71612b02f0083fd1a974ee200b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:18 +0000
Subject: [PATCH 58/58] fix: refuse channel indexes that are out of range

---
 delayed_image/delayed_nodes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 901bf8c..70ed70b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3527,10 +3527,13 @@ def _rectify_chan_idxs(chan_idxs, num_channels):
         if isinstance(chan_idxs, slice):
             return list(range(num_channels))[chan_idxs]
         if isinstance(chan_idxs, list):
-            return [
-                idx + num_channels if -num_channels <= idx < 0 else idx
-                for idx in map(int, chan_idxs)
-            ]
+            chan_idxs = [int(idx) for idx in chan_idxs]
+            if not all(-num_channels <= i < num_channels for i in chan_idxs):
+                raise IndexError(
+                    f'channels {chan_idxs} are out of range for an image '
+                    f'with {num_channels} channels'
+                )
+            return [i + num_channels if i < 0 else i for i in chan_idxs]
     return chan_idxs
 
 
-- 
2.43.0

