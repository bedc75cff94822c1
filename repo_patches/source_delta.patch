From 792ad30b180b7f401fc4c315bf58522a391a1005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:09 +0000
Subject: [PATCH 01/36] fix: imra2 and imran no longer modify the caller's
 first array

---
 pywt/_mra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index a41431e..5bfbfb5 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -280,7 +280,8 @@ def imra2(mra_coeffs):
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
-    rec = mra_coeffs[0]
+    # copy so that the caller's approximation array is not modified
+    rec = np.array(mra_coeffs[0], copy=True)
     for j in range(1, len(mra_coeffs)):
         for n in range(3):
             rec += mra_coeffs[j][n]
@@ -427,7 +428,8 @@ def imran(mra_coeffs):
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
-    rec = mra_coeffs[0]
+    # copy so that the caller's approximation array is not modified
+    rec = np.array(mra_coeffs[0], copy=True)
     for j in range(1, len(mra_coeffs)):
         for k, v in mra_coeffs[j].items():
             rec += v
-- 
2.43.0


From 912f972bbbe1a2dc12041b641536823ef053ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:09 +0000
Subject: [PATCH 02/36] fix: iswtn no longer modifies the caller's coefficient
 dictionaries

---
 pywt/_swt.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index f64e959..4754700 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -768,9 +768,10 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     for j in range(num_levels):
         step_size = int(pow(2, num_levels-j-1))
         last_index = step_size
-        if not trim_approx:
-            a = coeffs[j].pop('a'*ndim_transform)  # will restore later
-        details = coeffs[j]
+        # work on a copy without the approximation so that the dictionaries
+        # provided by the caller are never modified
+        details = {k: v for k, v in coeffs[j].items()
+                   if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
             [dt, ] + [v.dtype for v in details.values()]))
@@ -820,6 +821,4 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                 output[tuple(indices)] += x
                 ntransforms += 1
             output[tuple(indices)] /= ntransforms  # normalize
-        if not trim_approx:
-            coeffs[j]['a'*ndim_transform] = a  # restore approx coeffs to dict
     return output
-- 
2.43.0


From 256740705f7a7bc79cd8d79c7bc93cac3d2742bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:09 +0000
Subject: [PATCH 03/36] fix: dwtn and idwtn reject axes outside the data before
 calling native code

---
 pywt/_multidim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 5a30b80..782f4b1 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -175,6 +175,8 @@ def dwtn(data, wavelet, mode='symmetric', axes=None):
     if axes is None:
         axes = range(data.ndim)
     axes = [a + data.ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= data.ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
 
     modes = _modes_per_axis(mode, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
@@ -276,11 +278,9 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
     if any(s != coeff_shape for s in coeff_shapes):
         raise ValueError("`coeffs` must all be of equal size (or None)")
 
+    ndim = len(coeff_shape)
     if axes is None:
         axes = range(ndim_transform)
-        ndim = ndim_transform
-    else:
-        ndim = len(coeff_shape)
     axes = [a + ndim if a < 0 else a for a in axes]
 
     modes = _modes_per_axis(mode, axes)
-- 
2.43.0


From 313e4af50da114300779b264526beb6b31fd2720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:09 +0000
Subject: [PATCH 04/36] fix: downcoef raises instead of looping for ever on one
 sample in reflecting modes

---
 pywt/_extensions/_dwt.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 0fba429..a79b5a1 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -443,6 +443,9 @@ cpdef downcoef(bint do_dec_a, cdata_t[::1] data, Wavelet wavelet, MODE mode, int
         if output_len < 1:
             raise RuntimeError("Invalid output length.")
 
+        if data_size == 1 and (mode == MODE.MODE_REFLECT or mode == MODE.MODE_ANTIREFLECT):
+            raise ValueError("Input data length must be greater than 1 for [anti]reflect mode.")
+
         # To mirror multi-level wavelet decomposition behaviour, when detail
         # coefficients are requested, the dec_d variant is only called at the
         # final level.  All prior levels use dec_a.  In other words, the detail
-- 
2.43.0


From 39388e8c30d8e1bf104b9263ffab3c20650f2165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:52 +0000
Subject: [PATCH 05/36] fix: n-D transforms report failures of the row
 transform instead of returning unwritten output

---
 pywt/_extensions/c/wt.template.c | 41 ++++++++++++++++----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/pywt/_extensions/c/wt.template.c b/pywt/_extensions/c/wt.template.c
index d79fbd3..e756068 100644
--- a/pywt/_extensions/c/wt.template.c
+++ b/pywt/_extensions/c/wt.template.c
@@ -36,6 +36,7 @@ int CAT(TYPE, _downcoef_axis)(const TYPE * const restrict input, const ArrayInfo
 
     // These are boolean values, but MSVC does not have <stdbool.h>
     int make_temp_input, make_temp_output;
+    int row_status = 0;
 
     if (input_info.ndim != output_info.ndim)
         return 1;
@@ -116,16 +117,14 @@ int CAT(TYPE, _downcoef_axis)(const TYPE * const restrict input, const ArrayInfo
                 // Apply along axis
                 switch (coef){
                 case COEF_APPROX:
-                    CAT(TYPE, _dec_a)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      dwt_mode);
+                    row_status = CAT(TYPE, _dec_a)(
+                        input_row, input_info.shape[axis], wavelet,
+                        output_row, output_info.shape[axis], dwt_mode);
                     break;
                 case COEF_DETAIL:
-                    CAT(TYPE, _dec_d)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      dwt_mode);
+                    row_status = CAT(TYPE, _dec_d)(
+                        input_row, input_info.shape[axis], wavelet,
+                        output_row, output_info.shape[axis], dwt_mode);
                     break;
                 }
                 break;
@@ -134,20 +133,20 @@ int CAT(TYPE, _downcoef_axis)(const TYPE * const restrict input, const ArrayInfo
                 // Apply along axis
                 switch (coef){
                 case COEF_APPROX:
-                    CAT(TYPE, _swt_a)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      swt_level);
+                    row_status = CAT(TYPE, _swt_a)(
+                        input_row, input_info.shape[axis], wavelet,
+                        output_row, output_info.shape[axis], swt_level);
                     break;
                 case COEF_DETAIL:
-                    CAT(TYPE, _swt_d)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      swt_level);
+                    row_status = CAT(TYPE, _swt_d)(
+                        input_row, input_info.shape[axis], wavelet,
+                        output_row, output_info.shape[axis], swt_level);
                     break;
                 }
                 break;
         }
+        if (row_status != 0)
+            goto cleanup;
 
         // Copy from temporary output if necessary
         if (make_temp_output)
@@ -277,21 +276,23 @@ int CAT(TYPE, _idwt_axis)(const TYPE * const restrict coefs_a, const ArrayInfo *
             // Pointer arithmetic on NULL is undefined
             const TYPE * a_row = make_temp_coefs_a ? temp_coefs_a
                 : (const TYPE *)((const char *) coefs_a + a_offset);
-            CAT(TYPE, _upsampling_convolution_valid_sf)
+            if (CAT(TYPE, _upsampling_convolution_valid_sf)
                 (a_row, a_info->shape[axis],
                  wavelet->CAT(rec_lo_, REAL_TYPE), wavelet->rec_len,
                  output_row, output_info.shape[axis],
-                 mode);
+                 mode) != 0)
+                goto cleanup;
         }
         if (have_d){
             // Pointer arithmetic on NULL is undefined
             const TYPE * d_row = make_temp_coefs_d ? temp_coefs_d
                 : (const TYPE *)((const char *) coefs_d + d_offset);
-            CAT(TYPE, _upsampling_convolution_valid_sf)
+            if (CAT(TYPE, _upsampling_convolution_valid_sf)
                 (d_row, d_info->shape[axis],
                  wavelet->CAT(rec_hi_, REAL_TYPE), wavelet->rec_len,
                  output_row, output_info.shape[axis],
-                 mode);
+                 mode) != 0)
+                goto cleanup;
         }
 
         // Copy from temporary output if necessary
-- 
2.43.0


From 043a6f14a875ab44f42006c25126bb9e1d311d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:52 +0000
Subject: [PATCH 06/36] fix: too short coefficient arrays raise ValueError in
 every inverse transform

---
 pywt/_extensions/_dwt.pyx   | 4 ++++
 pywt/_extensions/c/common.c | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index a79b5a1..ba2c10f 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -289,6 +289,10 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     output_shape = input_shape.copy()
     output_shape[axis] = common.idwt_buffer_length(input_shape[axis],
                                                    wavelet.rec_len, mode)
+    if output_shape[axis] < 1:
+        raise ValueError(
+            "Invalid coefficient arrays length for specified wavelet. "
+            "Wavelet and mode must be the same as used for decomposition.")
     output = np.empty(output_shape, output_dtype)
 
     output_info.ndim = output.ndim
diff --git a/pywt/_extensions/c/common.c b/pywt/_extensions/c/common.c
index 030d8e7..20eb8d0 100644
--- a/pywt/_extensions/c/common.c
+++ b/pywt/_extensions/c/common.c
@@ -69,6 +69,9 @@ size_t idwt_buffer_length(size_t coeffs_len, size_t filter_len, MODE mode){
             case MODE_PERIODIZATION:
                 return 2*coeffs_len;
             default:
+                /* too few coefficients for the filter: no valid samples */
+                if(2*coeffs_len+2 < filter_len)
+                    return 0;
                 return 2*coeffs_len-filter_len+2;
     }
 }
-- 
2.43.0


From 898913dccf985cb77fbdb74413a69b1b9fa69803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:52 +0000
Subject: [PATCH 07/36] fix: wavelet construction handles allocation failure
 without touching foreign memory

---
 pywt/_extensions/c/wavelets.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pywt/_extensions/c/wavelets.c b/pywt/_extensions/c/wavelets.c
index a45531e..03a8f32 100644
--- a/pywt/_extensions/c/wavelets.c
+++ b/pywt/_extensions/c/wavelets.c
@@ -57,6 +57,7 @@ DiscreteWavelet* discrete_wavelet(WAVELET_NAME name, unsigned int order)
 
         /* the same as db1 */
         w = discrete_wavelet(DB, 1);
+        if (w == NULL) return NULL;
         w->base.family_name = "Haar";
         w->base.short_name = "haar";
         return w;
@@ -588,6 +589,11 @@ DiscreteWavelet* copy_discrete_wavelet(DiscreteWavelet* base)
     if(w == NULL) return NULL;
 
     memcpy(w, base, sizeof(DiscreteWavelet));
+    /* never free the filters of base if an allocation below fails */
+    w->dec_lo_float = w->dec_hi_float = NULL;
+    w->rec_lo_float = w->rec_hi_float = NULL;
+    w->dec_lo_double = w->dec_hi_double = NULL;
+    w->rec_lo_double = w->rec_hi_double = NULL;
     if (base->dec_len > 0)
     {
         w->dec_lo_float = wtmalloc(w->dec_len * sizeof(float));
-- 
2.43.0


From ceccbae311bef76a9f8ae9debd1efeaf5f9913de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:52 +0000
Subject: [PATCH 08/36] fix: swt rejects levels whose sum with start_level
 overflows

---
 pywt/_extensions/_swt.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_extensions/_swt.pyx b/pywt/_extensions/_swt.pyx
index 26e9e33..7aface1 100644
--- a/pywt/_extensions/_swt.pyx
+++ b/pywt/_extensions/_swt.pyx
@@ -70,7 +70,7 @@ def swt(cdata_t[::1] data, Wavelet wavelet, size_t level, size_t start_level,
         raise ValueError("start_level must be less than %d." %
                          common.swt_max_level(data.size))
 
-    if end_level > common.swt_max_level(data.size):
+    if level > common.swt_max_level(data.size) - start_level:
         msg = ("Level value too high (max level for current data size and "
                "start_level is %d)." % (
                 common.swt_max_level(data.size) - start_level))
@@ -181,7 +181,7 @@ cpdef swt_axis(np.ndarray data, Wavelet wavelet, size_t level,
         raise ValueError("start_level must be less than %d." %
                          common.swt_max_level(data.shape[axis]))
 
-    if end_level > common.swt_max_level(data.shape[axis]):
+    if level > common.swt_max_level(data.shape[axis]) - start_level:
         msg = ("Level value too high (max level for current data size and "
                "start_level is %d)." % (
                 common.swt_max_level(data.shape[axis]) - start_level))
-- 
2.43.0


From c33b211780437db1e58944c8491c3a14fa331843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:52 +0000
Subject: [PATCH 09/36] fix: swt keeps its output shape alive and computes
 large filter steps without overflow

---
 pywt/_extensions/_swt.pyx        | 2 ++
 pywt/_extensions/c/wt.template.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_swt.pyx b/pywt/_extensions/_swt.pyx
index 7aface1..ebb366a 100644
--- a/pywt/_extensions/_swt.pyx
+++ b/pywt/_extensions/_swt.pyx
@@ -189,7 +189,9 @@ cpdef swt_axis(np.ndarray data, Wavelet wavelet, size_t level,
 
     data = data.astype(_check_dtype(data), copy=False)
     # For SWT, the output matches the shape of the input
+    # copied because `data` is replaced at every level below
     output_shape = <size_t [:data.ndim]> <size_t *> data.shape
+    output_shape = output_shape.copy()
 
     data_info.ndim = data.ndim
     data_info.strides = <pywt_index_t *> data.strides
diff --git a/pywt/_extensions/c/wt.template.c b/pywt/_extensions/c/wt.template.c
index e756068..31b5da7 100644
--- a/pywt/_extensions/c/wt.template.c
+++ b/pywt/_extensions/c/wt.template.c
@@ -472,7 +472,7 @@ int CAT(TYPE, _swt_)(const TYPE * const restrict input, pywt_index_t input_len,
             goto cleanup;
         if(e_filter == NULL)
             return -1;
-        fstep = 1 << (level - 1);  // spacing between non-zero filter entries
+        fstep = (pywt_index_t)1 << (level - 1);  // spacing between non-zero filter entries
 
         /* compute upsampled filter values */
         for(i = 0; i < filter_len; ++i){
-- 
2.43.0


From a1ece27474deb5bd9990292842c463fa3882c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:46 +0000
Subject: [PATCH 10/36] fix: wavedecn_shapes uses the same per-axis level rule
 as wavedecn

---
 pywt/_multilevel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 0e5ca9c..1529cc2 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -926,7 +926,7 @@ def wavedecn_shapes(shape, wavelet, mode='symmetric', level=None, axes=None):
     modes = _modes_per_axis(mode, axes)
     dec_lengths = [w.dec_len for w in wavelets]
 
-    level = _check_level(min(axes_shapes), max(dec_lengths), level)
+    level = _check_level(axes_shapes, dec_lengths, level)
 
     shapes = []
     for i in range(level):
-- 
2.43.0


From 66c2ffc0e88234fd0a86d91b7ae006c8162b64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:01 +0000
Subject: [PATCH 11/36] fix: FswavedecnResult really checks its wavelets and
 modes

---
 pywt/_multilevel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 1529cc2..8e381b3 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -1226,11 +1226,11 @@ class FswavedecnResult:
         self._coeffs = coeffs
         self._coeff_slices = coeff_slices
         self._axes = axes
-        if not np.all(isinstance(w, Wavelet) for w in wavelets):
+        if not all(isinstance(w, Wavelet) for w in wavelets):
             raise ValueError(
                 "wavelets must contain pywt.Wavelet objects")
         self._wavelets = wavelets
-        if not np.all(isinstance(m, int) for m in mode_enums):
+        if not all(isinstance(m, int) for m in mode_enums):
             raise ValueError(
                 "mode_enums must be integers")
         self._mode_enums = mode_enums
-- 
2.43.0


From 2075f0098eddb3791f213d0d869643300ec126e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:01 +0000
Subject: [PATCH 12/36] fix: pad handles zero right widths and single samples
 in smooth and antisymmetric modes

---
 pywt/_dwt.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 1af28d9..9b0ea42 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -461,16 +461,21 @@ def pad(x, pad_widths, mode):
         xp = np.pad(x, pad_widths, mode='edge')
     elif mode == 'smooth':
         def pad_smooth(vector, pad_width, iaxis, kwargs):
+            first = pad_width[0]
+            last = vector.size - pad_width[1] - 1
+            # a single sample has no slope: it is extended as a constant
+            nslope = 1 if last > first else 0
+
             # smooth extension to left
-            left = vector[pad_width[0]]
-            slope_left = (left - vector[pad_width[0] + 1])
-            vector[:pad_width[0]] = \
+            left = vector[first]
+            slope_left = (left - vector[first + nslope])
+            vector[:first] = \
                 left + np.arange(pad_width[0], 0, -1) * slope_left
 
             # smooth extension to right
-            right = vector[-pad_width[1] - 1]
-            slope_right = (right - vector[-pad_width[1] - 2])
-            vector[-pad_width[1]:] = \
+            right = vector[last]
+            slope_right = (right - vector[last - nslope])
+            vector[last + 1:] = \
                 right + np.arange(1, pad_width[1] + 1) * slope_right
             return vector
         xp = np.pad(x, pad_widths, pad_smooth)
@@ -481,7 +486,7 @@ def pad(x, pad_widths, mode):
             npad_l, npad_r = pad_width
             vsize_nonpad = vector.size - npad_l - npad_r
             # Note: must modify vector in-place
-            vector[:] = np.pad(vector[pad_width[0]:-pad_width[-1]],
+            vector[:] = np.pad(vector[npad_l:npad_l + vsize_nonpad],
                                pad_width, mode='symmetric')
             vp = vector
             r_edge = npad_l + vsize_nonpad - 1
-- 
2.43.0


From ad852fea246fcbfcc8b45c89090a8e46277d22c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:01 +0000
Subject: [PATCH 13/36] fix: non-native byte order keeps its precision and
 imaginary part

---
 pywt/_extensions/_pywt.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index ddef575..d312d7c 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -1035,6 +1035,9 @@ cpdef np.dtype _check_dtype(data):
     cdef np.dtype dt
     try:
         dt = data.dtype
+        if not dt.isnative:
+            # non-native byte order is converted, never reinterpreted
+            dt = dt.newbyteorder('=')
         if dt not in (np.float64, np.float32, np.complex64, np.complex128):
             if dt == np.half:
                 # half-precision input converted to single precision
-- 
2.43.0


From df2ed9c90e3735ef07064584763109b7dd4811c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:01 +0000
Subject: [PATCH 14/36] fix: n-D packet trees cut rebuilt data back to the node
 shape

---
 pywt/_wavelet_packets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 57ebcb9..5ebd685 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -675,6 +675,9 @@ class NodeND(BaseNode):
             )
         else:
             rec = idwtn(coeffs, self.wavelet, self.mode, axes=self.axes)
+            if self._data_shape is not None and (
+                    rec.shape != self._data_shape):
+                rec = rec[tuple([slice(sz) for sz in self._data_shape])]
             if update:
                 self.data = rec
             return rec
@@ -741,7 +744,7 @@ class WaveletPacket(Node):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -867,7 +870,7 @@ class WaveletPacket2D(Node2D):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -1015,7 +1018,7 @@ class WaveletPacketND(NodeND):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
-- 
2.43.0


From 7753f0d80478578fff1fafb6d2f45d4de4bc6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:01 +0000
Subject: [PATCH 15/36] fix: copied and pickled packet trees keep their axes

---
 pywt/_wavelet_packets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 5ebd685..5842931 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -729,7 +729,8 @@ class WaveletPacket(Node):
 
     def __reduce__(self):
         return (WaveletPacket,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
+                (self.data, self.wavelet, self.mode, self.maxlevel,
+                 self.axes))
 
     def reconstruct(self, update=True):
         """
@@ -855,7 +856,8 @@ class WaveletPacket2D(Node2D):
 
     def __reduce__(self):
         return (WaveletPacket2D,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
+                (self.data, self.wavelet, self.mode, self.maxlevel,
+                 self.axes))
 
     def reconstruct(self, update=True):
         """
-- 
2.43.0


From 2e0d1a5ea4253153a5157d25b27eb250fb36217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:01 +0000
Subject: [PATCH 16/36] fix: copied and pickled wavelets keep their attributes
 and bounds

---
 pywt/_extensions/_pywt.pyx | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index d312d7c..643d527 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -431,7 +431,16 @@ cdef public class Wavelet [type WaveletType, object WaveletObject]:
             self.w = NULL
 
     def __reduce__(self):
-        return (Wavelet, (self.name, self.filter_bank))
+        # built-in wavelets are rebuilt by name so that all their attributes
+        # are restored; `number` is only set for them
+        if self.number is not None:
+            args = (self.name,)
+        else:
+            args = (self.name, self.filter_bank)
+        return (Wavelet, args, (self.orthogonal, self.biorthogonal))
+
+    def __setstate__(self, state):
+        self.orthogonal, self.biorthogonal = state
 
     def __len__(self):
         return self.w.dec_len
@@ -778,7 +787,17 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
             self.w = NULL
 
     def __reduce__(self):
-        return (ContinuousWavelet, (self.name, self.dt))
+        # raw struct values: the properties hide some of them behind None
+        state = (self.w.base.orthogonal, self.w.base.biorthogonal,
+                 self.w.complex_cwt, self.w.lower_bound, self.w.upper_bound,
+                 self.w.center_frequency, self.w.bandwidth_frequency,
+                 self.w.fbsp_order)
+        return (ContinuousWavelet, (self.name, self.dt), state)
+
+    def __setstate__(self, state):
+        (self.orthogonal, self.biorthogonal, self.complex_cwt,
+         self.lower_bound, self.upper_bound, self.center_frequency,
+         self.bandwidth_frequency, self.fbsp_order) = state
 
     property family_number:
         "Wavelet family number"
-- 
2.43.0


From 5fd9f8817649b778b79e9440833c61390f80e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:01 +0000
Subject: [PATCH 17/36] fix: unknown mode names and sub-band parts always raise
 ValueError

---
 pywt/_dwt.py               | 4 ++--
 pywt/_extensions/_pywt.pyx | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 9b0ea42..1ec1d6e 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -336,7 +336,7 @@ def downcoef(part, data, wavelet, mode='symmetric', level=1):
     data = np.asarray(data, dtype=dt, order='C')
     if data.ndim > 1:
         raise ValueError("downcoef only supports 1d data.")
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     mode = Modes.from_object(mode)
     wavelet = _as_wavelet(wavelet)
@@ -396,7 +396,7 @@ def upcoef(part, coeffs, wavelet, level=1, take=0):
     if coeffs.ndim > 1:
         raise ValueError("upcoef only supports 1d coeffs.")
     wavelet = _as_wavelet(wavelet)
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     return np.asarray(_upcoef(part == 'a', coeffs, wavelet, level, take))
 
diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 643d527..beac7e6 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -119,10 +119,11 @@ class _Modes(object):
                 raise ValueError("Invalid mode.")
             m = mode
         else:
-            try:
-                m = getattr(Modes, mode)
-            except AttributeError:
+            if not isinstance(mode, str):
+                raise TypeError("Mode must be a name or an integer code.")
+            if mode not in Modes.modes and mode not in _old_modes:
                 raise ValueError("Unknown mode name '%s'." % mode)
+            m = getattr(Modes, mode)
 
         return m
 
-- 
2.43.0


From ef13e7a67cbc5032b0ab560977a078579a5a24b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:46 +0000
Subject: [PATCH 18/36] fix: threshold_firm changed a large value that is only
 found at index 0

---
 pywt/_thresholding.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 33af65b..3b70947 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -244,6 +244,5 @@ def threshold_firm(data, value_low, value_high):
 
     # restore hard-thresholding behavior for values > value_high
     large_vals = np.where(magnitude > value_high)
-    if np.any(large_vals[0]):
-        thresholded[large_vals] = data[large_vals]
+    thresholded[large_vals] = data[large_vals]
     return thresholded
-- 
2.43.0


From 37caedec2dcf3d8c2c95446c104ab2c7b7ab2b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:46 +0000
Subject: [PATCH 19/36] fix: soft and garrote thresholding at zero turned zeros
 into NaN

---
 pywt/_thresholding.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 3b70947..a501652 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -17,11 +17,12 @@ def soft(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
         thresholded = (1 - value/magnitude)
         thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+        # zero stays zero, also for a threshold of zero (0/0)
+        thresholded = np.where(magnitude == 0, data, data * thresholded)
 
     if substitute == 0:
         return thresholded
@@ -35,11 +36,12 @@ def nn_garrote(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
         thresholded = (1 - value**2/magnitude**2)
         thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+        # zero stays zero, also for a threshold of zero (0/0)
+        thresholded = np.where(magnitude == 0, data, data * thresholded)
 
     if substitute == 0:
         return thresholded
-- 
2.43.0


From 8d94c7e670ea7d31e9b5a17931544dce8b966cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:46 +0000
Subject: [PATCH 20/36] fix: threshold_firm gave NaN for its documented
 limiting cases

---
 pywt/_thresholding.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index a501652..9bb9a01 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -237,13 +237,18 @@ def threshold_firm(data, value_low, value_high):
 
     data = np.asarray(data)
     magnitude = np.absolute(data)
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
-        vdiff = value_high - value_low
-        thresholded = value_high * (1 - value_low/magnitude) / vdiff
+        thresholded = 1 - value_low/magnitude
+        if not np.isinf(value_high):
+            vdiff = value_high - value_low
+            thresholded = value_high * thresholded / vdiff
         thresholded.clip(min=0, max=None, out=thresholded)
         thresholded = data * thresholded
 
+    # 0/0 where value_low is zero or equal to value_high
+    thresholded[magnitude <= value_low] = 0
+
     # restore hard-thresholding behavior for values > value_high
     large_vals = np.where(magnitude > value_high)
     thresholded[large_vals] = data[large_vals]
-- 
2.43.0


From c4d079a1226bc38672f63c72c4c890b57189d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:52 +0000
Subject: [PATCH 21/36] fix: garrote thresholding of narrow integers overflowed

---
 pywt/_thresholding.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 9bb9a01..1e72735 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -36,9 +36,10 @@ def nn_garrote(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore', invalid='ignore'):
+    with np.errstate(divide='ignore', over='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - value**2/magnitude**2)
+        # the quotient is squared, not its parts: squares of integers overflow
+        thresholded = (1 - (value/magnitude)**2)
         thresholded.clip(min=0, max=None, out=thresholded)
         # zero stays zero, also for a threshold of zero (0/0)
         thresholded = np.where(magnitude == 0, data, data * thresholded)
-- 
2.43.0


From bc4b36e836326102cd3fed7a2e5308497ddf5e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 22/36] fix: reading a missing packet node overwrote the data
 of its siblings

---
 pywt/_wavelet_packets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 5842931..3c9a812 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -227,8 +227,13 @@ class BaseNode:
         self._validate_node_name(part)
         subnode = self._get_node(part)
         if subnode is None and decompose and not self.is_empty:
+            present = {p: self._get_node(p) for p in self.PARTS}
             self.decompose()
             subnode = self._get_node(part)
+            # only the missing subnodes are created, the others keep their data
+            for p, node in present.items():
+                if node is not None:
+                    self._set_node(p, node)
         return subnode
 
     def __getitem__(self, path):
-- 
2.43.0


From e6b288208684b72361e1dda01c56ce10bf391e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 23/36] fix: packet level 0 in frequency order was empty

---
 pywt/_wavelet_packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 3c9a812..e67070d 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -20,6 +20,8 @@ from ._multidim import dwt2, dwtn, idwt2, idwtn
 
 
 def get_graycode_order(level, x='a', y='d'):
+    if level == 0:
+        return [""]
     graycode_order = [x, y]
     for i in range(level - 1):
         graycode_order = [x + path for path in graycode_order] + \
-- 
2.43.0


From 36262f5f484eb8e0b146fa6c9ffa05b05f854193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 24/36] fix: packing coefficients dropped the imaginary part or
 precision of the details

---
 pywt/_multilevel.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 8e381b3..357ec6d 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -625,6 +625,12 @@ def _determine_coeff_array_shape(coeffs, axes):
     return arr_shape, is_tight_packing
 
 
+def _common_dtype(coeffs):
+    """Data type that can hold the coefficients of all subbands."""
+    details = [v for d in coeffs[1:] for v in d.values() if v is not None]
+    return np.result_type(coeffs[0], *details)
+
+
 def _prepare_coeffs_axes(coeffs, axes):
     """Helper function to check type of coeffs and axes.
 
@@ -760,9 +766,9 @@ def coeffs_to_array(coeffs, padding=0, axes=None):
     if padding is None:
         if not is_tight_packing:
             raise ValueError("array coefficients cannot be tightly packed")
-        coeff_arr = np.empty(arr_shape, dtype=a_coeffs.dtype)
+        coeff_arr = np.empty(arr_shape, dtype=_common_dtype(coeffs))
     else:
-        coeff_arr = np.full(arr_shape, padding, dtype=a_coeffs.dtype)
+        coeff_arr = np.full(arr_shape, padding, dtype=_common_dtype(coeffs))
 
     a_slices = tuple([slice(s) for s in a_shape])
     coeff_arr[a_slices] = a_coeffs
@@ -1083,7 +1089,7 @@ def ravel_coeffs(coeffs, axes=None):
 
     # preallocate output array
     arr_size = wavedecn_size(coeffs)
-    coeff_arr = np.empty((arr_size, ), dtype=a_coeffs.dtype)
+    coeff_arr = np.empty((arr_size, ), dtype=_common_dtype(coeffs))
 
     a_slice = slice(a_size)
     coeff_arr[a_slice] = a_coeffs.ravel()
-- 
2.43.0


From 3000b20a50df0d84dbc483767f8198bd9e7ed0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:20 +0000
Subject: [PATCH 25/36] fix: assigning a packet node or a list dropped the
 imaginary part

---
 pywt/_wavelet_packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index e67070d..173a65e 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -306,7 +306,7 @@ class BaseNode:
                 else:
                     self.data = np.asarray(data)
                 # convert data to nearest supported dtype
-                dtype = _check_dtype(data)
+                dtype = _check_dtype(self.data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
         else:
-- 
2.43.0


From 12c795a65b106b92db551d6a0d23c61db5eecd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:32 +0000
Subject: [PATCH 26/36] fix: iswtn returned unsupported longdouble precision
 for longdouble coefficients

---
 pywt/_swt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 4754700..2fad98e 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -774,9 +774,11 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                    if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [dt, ] + [v.dtype for v in details.values()]))
+            [dt, ] + [_check_dtype(v) for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
+        details = {k: np.asarray(v, dtype=common_dtype)
+                   for k, v in details.items()}
 
         # We assume all coefficient arrays are of equal size
         shapes = [v.shape for k, v in details.items()]
-- 
2.43.0


From 92f8830bed6fcd3b323922878401e1c5dacd19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:43 +0000
Subject: [PATCH 27/36] fix: iswtn and iswt accepted some out of range axes

---
 pywt/_swt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 2fad98e..6716be6 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -745,6 +745,8 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     if axes is None:
         axes = range(output.ndim)
     axes = [a + ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
     if len(axes) != len(set(axes)):
         raise ValueError("The axes passed to swtn must be unique.")
     if ndim_transform != len(axes):
-- 
2.43.0


From eb3ed6d4ba1c75df8590026767f43e94df6a5572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 28/36] fix: malformed continuous wavelet names were accepted
 with wrong parameters

---
 pywt/_extensions/_pywt.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index beac7e6..41ce4f0 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -34,9 +34,9 @@ _attr_deprecation_msg = ('{old} has been renamed to {new} and will '
                          'be unavailable in a future version '
                          'of pywt.')
 
-# Extract float/int parameters from a wavelet name. Examples:
-#    re.findall(cwt_pattern, 'fbsp1-1.5-1') ->  ['1', 1.5', '1']
-cwt_pattern = re.compile(r'\D+(\d+\.*\d*)+')
+# A float/int parameter of a wavelet name. Parameters are separated by dashes:
+#    'fbsp1-1.5-1' ->  ['1', 1.5', '1']
+cwt_pattern = re.compile(r'\d+\.?\d*|\.\d+')
 
 
 # raises exception if the wavelet name is undefined
@@ -751,7 +751,9 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
 
         # set wavelet attributes based on frequencies extracted from the name
         if base_name != self.name:
-            freqs = re.findall(cwt_pattern, self.name)
+            freqs = self.name[len(base_name):].split('-')
+            if not all([cwt_pattern.fullmatch(freq) for freq in freqs]):
+                freqs = []
             if base_name in ['shan', 'cmor']:
                 if len(freqs) != 2:
                     raise ValueError(
-- 
2.43.0


From f224811c1cfa56254d05813ba8279697f1d73767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 29/36] fix: ContinuousWavelet accepts every spelling of its
 two element types

---
 pywt/_extensions/_pywt.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 41ce4f0..f70067a 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -708,6 +708,8 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
             raise ValueError(
                 "Only np.float32 and np.float64 dtype are supported for "
                 "ContinuousWavelet objects.")
+        # other spellings of the two types ('f8', float) compare unequal to them
+        self.dt = np.float64 if np.dtype(self.dt) == np.float64 else np.float32
         if len(self.name) >= 4 and self.name[:4] in ['cmor', 'shan', 'fbsp']:
             base_name = self.name[:4]
             if base_name == self.name:
-- 
2.43.0


From ac4752c079551e510963a2068f81242f61b1d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 30/36] fix: an axis named twice, once by its negative number,
 is rejected like one named twice alike

---
 pywt/_multilevel.py      | 18 +++++++++++++-----
 pywt/_utils.py           |  5 +++++
 pywt/_wavelet_packets.py |  5 +++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 357ec6d..ba41072 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -20,7 +20,13 @@ from ._dwt import dwt, dwt_coeff_len, idwt
 from ._extensions._dwt import dwt_max_level
 from ._extensions._pywt import Modes, Wavelet
 from ._multidim import _fix_coeffs, dwt2, dwtn, idwt2, idwtn
-from ._utils import AxisError, _as_wavelet, _modes_per_axis, _wavelets_per_axis
+from ._utils import (
+    AxisError,
+    _as_wavelet,
+    _has_repeated_axes,
+    _modes_per_axis,
+    _wavelets_per_axis,
+)
 
 __all__ = ['wavedec', 'waverec', 'wavedec2', 'waverec2', 'wavedecn',
            'waverecn', 'coeffs_to_array', 'array_to_coeffs', 'ravel_coeffs',
@@ -228,7 +234,7 @@ def wavedec2(data, wavelet, mode='symmetric', level=None, axes=(-2, -1)):
     axes = tuple(axes)
     if len(axes) != 2:
         raise ValueError("Expected 2 axes")
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, data.ndim):
         raise ValueError("The axes passed to wavedec2 must be unique.")
     try:
         axes_sizes = [data.shape[ax] for ax in axes]
@@ -312,6 +318,8 @@ def waverec2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
 
     a, ds = coeffs[0], coeffs[1:]
     a = np.asarray(a)
+    if _has_repeated_axes(axes, a.ndim):
+        raise ValueError("The axes passed to waverec2 must be unique.")
 
     for d in ds:
         if not isinstance(d, (list, tuple)) or len(d) != 3:
@@ -347,7 +355,7 @@ def _prep_axes_wavedecn(shape, axes):
         axes = range(ndim)
     else:
         axes = tuple(axes)
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, ndim):
         raise ValueError("The axes passed to wavedecn must be unique.")
     try:
         axes_shapes = [shape[ax] for ax in axes]
@@ -560,7 +568,7 @@ def waverecn(coeffs, wavelet, mode='symmetric', axes=None):
         axes = range(ndim)
     else:
         axes = tuple(axes)
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, ndim):
         raise ValueError("The axes passed to waverecn must be unique.")
     ndim_transform = len(axes)
 
@@ -1199,7 +1207,7 @@ def unravel_coeffs(arr, coeff_slices, coeff_shapes, output_format='wavedecn'):
 
 def _check_fswavedecn_axes(data, axes):
     """Axes checks common to fswavedecn, fswaverecn."""
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, data.ndim):
         raise AxisError("The axes passed to fswavedecn must be unique.")
     try:
         [data.shape[ax] for ax in axes]
diff --git a/pywt/_utils.py b/pywt/_utils.py
index c7dfcb6..5d41ea3 100644
--- a/pywt/_utils.py
+++ b/pywt/_utils.py
@@ -33,6 +33,11 @@ def _as_wavelet(wavelet):
     return wavelet
 
 
+def _has_repeated_axes(axes, ndim):
+    """True if two entries of axes name the same axis of ndim dimensions."""
+    return len({a + ndim if a < 0 else a for a in axes}) != len(axes)
+
+
 def _wavelets_per_axis(wavelet, axes):
     """Initialize Wavelets for each axis to be transformed.
 
diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 173a65e..074a1c5 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -17,6 +17,7 @@ import numpy as np
 from ._dwt import dwt, dwt_max_level, idwt
 from ._extensions._pywt import Wavelet, _check_dtype
 from ._multidim import dwt2, dwtn, idwt2, idwtn
+from ._utils import _has_repeated_axes
 
 
 def get_graycode_order(level, x='a', y='d'):
@@ -853,6 +854,8 @@ class WaveletPacket2D(Node2D):
             if data.ndim < 2:
                 raise ValueError(
                     "WaveletPacket2D requires data with 2 or more dimensions.")
+            if _has_repeated_axes(self.axes, data.ndim):
+                raise ValueError("Expected two unique axes.")
             self.data_size = data.shape
             transform_size = [data.shape[ax] for ax in self.axes]
             if maxlevel is None:
@@ -991,6 +994,8 @@ class WaveletPacketND(NodeND):
             if data.ndim == 0:
                 raise ValueError("data must be at least 1D")
             ndim = data.ndim
+            if _has_repeated_axes(axes, ndim):
+                raise ValueError("Expected a set of unique axes.")
         else:
             ndim = len(axes)
 
-- 
2.43.0


From 2675944ff08deba69b9b5b39a67fae6e5acbed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:31 +0000
Subject: [PATCH 31/36] fix: sample data and the list of demo signals are
 copied before they are handed out

---
 pywt/data/_readers.py         | 33 +++++++++++----------------------
 pywt/data/_wavelab_signals.py |  2 +-
 2 files changed, 12 insertions(+), 23 deletions(-)

diff --git a/pywt/data/_readers.py b/pywt/data/_readers.py
index 8c2e788..99a4892 100644
--- a/pywt/data/_readers.py
+++ b/pywt/data/_readers.py
@@ -8,6 +8,12 @@ _DATADIR = importlib.resources.files('pywt.data')
 
 
 @functools.cache
+def _load(filename):
+    # shared by all callers: never hand this array out, only copies of it
+    with importlib.resources.as_file(_DATADIR.joinpath(filename)) as f:
+        return np.load(f)['data']
+
+
 def ascent():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -41,13 +47,9 @@ def ascent():
     >>> plt.show()
 
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('ascent.npz')) as f:
-        ascent = np.load(f)['data']
-
-    return ascent
+    return _load('ascent.npz').copy()
 
 
-@functools.cache
 def aero():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -78,13 +80,9 @@ def aero():
     >>> plt.show()
 
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('aero.npz')) as f:
-        aero = np.load(f)['data']
-
-    return aero
+    return _load('aero.npz').copy()
 
 
-@functools.cache
 def camera():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -126,13 +124,9 @@ def camera():
     >>> plt.show()
 
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('camera.npz')) as f:
-        camera = np.load(f)['data']
-
-    return camera
+    return _load('camera.npz').copy()
 
 
-@functools.cache
 def ecg():
     """
     Get 1024 points of an ECG timeseries.
@@ -158,13 +152,9 @@ def ecg():
     [<matplotlib.lines.Line2D object at ...>]
     >>> plt.show()
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('ecg.npz')) as f:
-        ecg = np.load(f)['data']
+    return _load('ecg.npz').copy()
 
-    return ecg
 
-
-@functools.cache
 def nino():
     """
     This data contains the averaged monthly sea surface temperature in degrees
@@ -196,8 +186,7 @@ def nino():
     [<matplotlib.lines.Line2D object at ...>]
     >>> plt.show()
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('sst_nino3.npz')) as f:
-        sst_csv = np.load(f)['data']
+    sst_csv = _load('sst_nino3.npz')
 
     # sst_csv = pd.read_csv("http://www.cpc.ncep.noaa.gov/data/indices/ersst4.nino.mth.81-10.ascii", sep=' ', skipinitialspace=True)
     # take only full years
diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 952c0b9..ed2e82d 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -76,7 +76,7 @@ def demo_signal(name='Bumps', n=None):
 
     """
     if name.lower() == 'list':
-        return _implemented_signals
+        return _implemented_signals[:]
 
     if n is not None:
         if n < 1 or (n % 1) != 0:
-- 
2.43.0


From 0f468d29316c1c79d9ccb0fc636da3327051bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:31 +0000
Subject: [PATCH 32/36] fix: demo_signal returned n + 1 samples for some n, and
 NaN at the end of the Doppler signal

---
 pywt/data/_wavelab_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index ed2e82d..dd68123 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -81,7 +81,7 @@ def demo_signal(name='Bumps', n=None):
     if n is not None:
         if n < 1 or (n % 1) != 0:
             raise ValueError("n must be an integer >= 1")
-        t = np.arange(1/n, 1 + 1/n, 1/n)
+        t = np.arange(1, n + 1) / n
 
     # The following function types don't allow user-specified `n`.
     n_hard_coded = ['gabor', 'sineoneoverx']
@@ -139,7 +139,7 @@ def demo_signal(name='Bumps', n=None):
     elif name == 'hypchirps':  # Hyperbolic Chirps of Mallat's book
         alpha = 15 * n * np.pi / 1024
         beta = 5 * n * np.pi / 1024
-        t = np.arange(1.001, n + .001 + 1) / n
+        t = (np.arange(1, n + 1) + .001) / n
         f1 = np.zeros(n)
         f2 = np.zeros(n)
         f1 = np.sin(alpha / (.8 - t)) * (0.1 < t) * (t < 0.68)
-- 
2.43.0


From 6ee07cb8abd07d0a65e58e7a13650303a93f504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:31 +0000
Subject: [PATCH 33/36] fix: demo_signal failed for lengths that are not those
 of its tests (Chirps, Piece-*, Riemann)

---
 pywt/data/_wavelab_signals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index dd68123..1ec3892 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -179,7 +179,7 @@ def demo_signal(name='Bumps', n=None):
         tmp = np.arange(1, n // 8 + 1) - np.ones(n // 8)
         envelope[:n // 8] = (
             1 + np.sin(-np.pi / 2 + tmp / (n / 8 - 1) * np.pi)) / 2
-        envelope[7 * n // 8:n] = envelope[:n // 8][::-1]
+        envelope[n - n // 8:] = envelope[:n // 8][::-1]
         f = f*envelope
     elif name == 'gabor':  # two modulated Gabor functions in Mallat's book
         n = 512
@@ -225,7 +225,7 @@ def demo_signal(name='Bumps', n=None):
         k = n_2 + 2 * n_12 + 3 * n_20
         f[k:k + n_7] = f5
         diff = n - 5 * n_5
-        f[5 * n_5:n] = f[diff - 1::-1]
+        f[5 * n_5:n] = f[:diff][::-1]
         # zero-mean
         bias = np.sum(f) / n
         f = bias - f
@@ -247,7 +247,7 @@ def demo_signal(name='Bumps', n=None):
         f[3 * n_5:4 * n_5] = f4
         f[4 * n_5:5 * n_5] = f5[n_5::-1]
         diff = n - 5*n_5
-        f[5 * n_5:n] = f[diff - 1::-1]
+        f[5 * n_5:n] = f[:diff][::-1]
         f[n_20:n_20 + n_10] = np.ones(n_10) * 10
         f[n - n_10:n + n_20 - n_10] = np.ones(n_20) * 150
         # zero-mean
@@ -255,7 +255,7 @@ def demo_signal(name='Bumps', n=None):
         f = f - bias
     elif name == 'riemann':
         # Riemann's Non-differentiable Function
-        sqn = int(np.round(np.sqrt(n)))
+        sqn = int(np.sqrt(n))
         idx = np.arange(1, sqn + 1)
         idx *= idx
         f = np.zeros_like(t)
-- 
2.43.0


From 857fd7206f5fb2a18c13a302e1fea7400817195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:49 +0000
Subject: [PATCH 34/36] fix: the shortest HypChirps and Chirps demo signals
 were NaN

---
 pywt/data/_wavelab_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 1ec3892..59d50bf 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -148,7 +148,7 @@ def demo_signal(name='Bumps', n=None):
         p = m // 4
         envelope = np.ones(m)  # the rinp.sing cutoff function
         tmp = np.arange(1, p + 1)-np.ones(p)
-        envelope[:p] = (1 + np.sin(-np.pi / 2 + tmp / (p - 1) * np.pi)) / 2
+        envelope[:p] = (1 + np.sin(-np.pi / 2 + tmp / max(p - 1, 1) * np.pi)) / 2
         envelope[m-p:m] = envelope[:p][::-1]
         env = np.zeros(n)
         env[int(np.ceil(n / 10)) - 1:m + int(np.ceil(n / 10)) - 1] = \
@@ -178,7 +178,7 @@ def demo_signal(name='Bumps', n=None):
         envelope = np.ones(n)  # the rinp.sing cutoff function
         tmp = np.arange(1, n // 8 + 1) - np.ones(n // 8)
         envelope[:n // 8] = (
-            1 + np.sin(-np.pi / 2 + tmp / (n / 8 - 1) * np.pi)) / 2
+            1 + np.sin(-np.pi / 2 + tmp / (n / 8 - 1 or 1) * np.pi)) / 2
         envelope[n - n // 8:] = envelope[:n // 8][::-1]
         f = f*envelope
     elif name == 'gabor':  # two modulated Gabor functions in Mallat's book
-- 
2.43.0


From 0b883c587112c1a292661b67cb5d2596f823a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:15 +0000
Subject: [PATCH 35/36] fix: idwtn returned double precision for single
 precision details of non-native byte order

---
 pywt/_multidim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 782f4b1..827d202 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -14,6 +14,7 @@ import numpy as np
 
 from ._c99_config import _have_c99_complex
 from ._extensions._dwt import dwt_axis, idwt_axis
+from ._extensions._pywt import _check_dtype
 from ._utils import AxisError, _modes_per_axis, _wavelets_per_axis
 
 __all__ = ['dwt2', 'idwt2', 'dwtn', 'idwtn']
@@ -297,7 +298,7 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
             L = coeffs.get(key + 'a', None)
             H = coeffs.get(key + 'd', None)
             if L is not None and H is not None:
-                if L.dtype != H.dtype:
+                if _check_dtype(L) != _check_dtype(H):
                     # upcast to a common dtype (float64 or complex128)
                     if L.dtype.kind == 'c' or H.dtype.kind == 'c':
                         dtype = np.complex128
-- 
2.43.0


From 08445109dd554c85bbcd59dd1b8a731b5dd926b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:44 +0000
Subject: [PATCH 36/36] fix: largest level of a packet tree built from parts
 looked at axes it does not transform

---
 pywt/_wavelet_packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 074a1c5..072f5d9 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -140,7 +140,7 @@ class BaseNode:
             return self._maxlevel
         elif self.data is not None:
             return self.level + dwt_max_level(
-                min(self.data.shape), self.wavelet)
+                np.min(np.take(self.data.shape, self.axes)), self.wavelet)
 
         if evaluate_from == 'parent':
             if self.parent is not None:
@@ -638,7 +638,7 @@ class NodeND(BaseNode):
             return self._maxlevel
         elif self.data is not None:
             return self.level + dwt_max_level(
-                min(self.data.shape), self.wavelet)
+                np.min(np.take(self.data.shape, self.axes)), self.wavelet)
 
         if evaluate_from == 'parent':
             if self.parent is not None:
-- 
2.43.0

