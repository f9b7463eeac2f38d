From 758fa68c1e67753cde061f765c50c869736f6f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:35 +0000
Subject: [PATCH 01/63] fix: demapping(pn_inv=True) no longer inverts the
 caller's array in place

---
 CommDspy/rx/demapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/demapping.py b/CommDspy/rx/demapping.py
index 706591c..24092c2 100644
--- a/CommDspy/rx/demapping.py
+++ b/CommDspy/rx/demapping.py
@@ -24,7 +24,7 @@ def demapping(signal, constellation, full_scale=False, pn_inv=False):
     # PN-inv
     # ==================================================================================================================
     if pn_inv:
-        signal *= -1
+        signal = -1 * signal
     # ==================================================================================================================
     # Converting symbols to indices, i.e. performing decoding
     # ==================================================================================================================
-- 
2.43.0


From 29f7a9bbd275e5df1c148a150c26df1daa426b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:35 +0000
Subject: [PATCH 02/63] fix: maximum likelihood decoding with error_prob=True
 no longer overwrites the received pattern

---
 CommDspy/misc/ml_decoding.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 5772d5e..48128f4 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -15,7 +15,6 @@ def ml_decoding(permutations, codebook, pattern_block, error_prob):
         min_hamming = np.min(hamming, axis=0)
         not_codeword = min_hamming > 0
         correct_idx = np.argmin(hamming[:, not_codeword], axis=0)
-        pattern_block[not_codeword] = codebook[correct_idx]
         # ----------------------------------------------------------------------------------------------------------
         # Fixing the hamming matrix, filling p_err
         # ----------------------------------------------------------------------------------------------------------
-- 
2.43.0


From dc8b4cc2c5e40cb870be64f6d1c977b8f44a9e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:35 +0000
Subject: [PATCH 03/63] fix: decoding_mlt3 accepts patterns with more than one
 dimension

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index dfa4e95..1b3936a 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -118,7 +118,7 @@ def decoding_mlt3(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-    if pattern[0] == 1:
+    if pattern_flat[0] == 1:
         transitions = np.concatenate((np.array([1]), np.abs(np.diff(pattern_flat))))
     else:
         transitions = np.concatenate((np.array([0]), np.abs(np.diff(pattern_flat))))
-- 
2.43.0


From 1944471d065dbc8fd9f424052880d2b229d6075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:35 +0000
Subject: [PATCH 04/63] fix: decoding_differential reads a 2-D pattern in the
 order coding_differential wrote it

---
 CommDspy/rx/decoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 1b3936a..c406c95 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -44,7 +44,8 @@ def decoding_differential(pattern, constellation=ConstellationEnum.PAM4):
                    --------------------------------
         """
     lvl_num = len(get_levels(constellation))
-    return (lfilter([1, -1], [1], pattern.astype(float)) % lvl_num).astype(int)
+    shape   = pattern.shape
+    return np.reshape(lfilter([1, -1], [1], np.reshape(pattern, -1).astype(float)) % lvl_num, shape).astype(int)
 
 def decoding_manchester(pattern):
     """
-- 
2.43.0


From c72b0277afd996eb19a18a5cd7f37cc9131b6baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:35 +0000
Subject: [PATCH 05/63] fix: bipolar error detection marks leading repeated -1
 marks with -0.5 and keeps the pattern's shape

---
 CommDspy/rx/decoding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index c406c95..921c3f8 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -102,17 +102,17 @@ def decoding_bipolar(pattern, error_detection=False):
         # Detecting the mark locations in the pattern
         # ----------------------------------------------------------------------------------------------------------
         pattern_flat    = np.reshape(pattern - 1, -1)
-        decoded_pattern = np.abs(pattern - 1).astype(float)
+        decoded_pattern = np.abs(pattern_flat).astype(float)
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
         mark_change     = np.concatenate((np.array([1]), np.diff(pattern_flat[mark_location])))
-        running_sign    = 1
+        running_sign    = pattern_flat[mark_location[0]] if len(mark_location) > 0 else 1
         for ii, mark in enumerate(mark_change):
             if mark == 0:
                 decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(running_sign)
             else:
-                running_sign = np.sign(mark)
-        return decoded_pattern
+                running_sign = np.sign(mark) if ii > 0 else running_sign
+        return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
     pattern_flat = np.reshape(pattern, -1)
-- 
2.43.0


From 9f3715edaa468e6277a081eb9a3ef0ec2eef9651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:35 +0000
Subject: [PATCH 06/63] fix: binary validity check rejects two-valued patterns
 which hold only one of 0 and 1

---
 CommDspy/misc/help_functions.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/CommDspy/misc/help_functions.py b/CommDspy/misc/help_functions.py
index 5e98490..e86b105 100644
--- a/CommDspy/misc/help_functions.py
+++ b/CommDspy/misc/help_functions.py
@@ -1,12 +1,7 @@
 import numpy as np
 
 def check_binary(pattern):
-    data_in = np.unique(pattern)
-    if len(data_in) == 1 and (0 not in data_in and 1 not in data_in):
-        raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) == 2 and (0 not in data_in and 1 not in data_in):
-        raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) > 2:
+    if not np.all(np.isin(pattern, [0, 1])):
         raise ValueError('Data in is not binary, please consider other encoding methods')
 
 def check_valid_conv(pattern, G, feedback, use_feedback):
-- 
2.43.0


From 6e224a79067df00d03b12a24c34bcdce23530d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:51 +0000
Subject: [PATCH 07/63] fix: quantize works with its default fixed point type

---
 CommDspy/rx/quantiztion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 10116e8..5eab1c8 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -1,7 +1,7 @@
 import numpy as np
 from CommDspy.rx.slicer import slicer
 
-def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
+def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
     """
     :param signal: Input signal to perform quantization on
     :param total_bits: Total bit used in the quantization
-- 
2.43.0


From fa35e2f2ed4eecb100b719f8434bebfb6310c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:51 +0000
Subject: [PATCH 08/63] fix: quantize applies negative fractional bits as
 documented

---
 CommDspy/rx/quantiztion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 5eab1c8..648d743 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -42,9 +42,9 @@ def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
         levels = levels[1:] - 2**(total_bits - 1)
     elif fix_point_type != 'u':
         raise ValueError('Type used is not defined, please read function description')
-    if frac_bits > 0:
+    if frac_bits != 0:
         levels = levels.astype(float)
-        levels /= 2**frac_bits
+        levels /= 2.0**frac_bits
     # ==================================================================================================================
     # Applying Quantization
     # ==================================================================================================================
-- 
2.43.0


From d6dc0d1553b25ce62920f771a7f49acd508d1525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:51 +0000
Subject: [PATCH 09/63] fix: slicer accepts lists and returns any input shape
 unchanged

---
 CommDspy/rx/slicer.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/CommDspy/rx/slicer.py b/CommDspy/rx/slicer.py
index 1fdd862..233a420 100644
--- a/CommDspy/rx/slicer.py
+++ b/CommDspy/rx/slicer.py
@@ -9,18 +9,7 @@ def slicer(slicer_in_mat, levels=None):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    try:
-        y, x = slicer_in_mat.shape
-    except AttributeError:
-        slicer_im_mat = np.array(slicer_in_mat)
-        try:
-            y, x = slicer_im_mat.shape
-        except ValueError:
-            x = slicer_in_mat.shape[0]
-            y = 0
-    except ValueError:
-        x = slicer_in_mat.shape[0]
-        y = 0
+    slicer_in_mat = np.asarray(slicer_in_mat)
     if levels is None:
         levels = np.array([-3, -1, 1, 3]).astype(float)
     # ==================================================================================================================
@@ -32,6 +21,6 @@ def slicer(slicer_in_mat, levels=None):
     # Slicing
     # ==================================================================================================================
     constellation_points = np.argmin(diff_mat, axis=1)
-    constellation_points = np.reshape(constellation_points, [y, x]) if y > 0 else np.reshape(constellation_points, [-1])
+    constellation_points = np.reshape(constellation_points, slicer_in_mat.shape)
     slicer_out_mat = np.array(levels[constellation_points])
     return slicer_out_mat
-- 
2.43.0


From 2af912d8cb8ca2b7c6349d105e6a878e56854e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:51 +0000
Subject: [PATCH 10/63] fix: symbol2bin handles a single symbol with bit
 manipulation flags

---
 CommDspy/rx/symbol2bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/symbol2bin.py b/CommDspy/rx/symbol2bin.py
index 2112404..cffdf52 100644
--- a/CommDspy/rx/symbol2bin.py
+++ b/CommDspy/rx/symbol2bin.py
@@ -25,7 +25,7 @@ def symbol2bin(symbol_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, i
     # ==================================================================================================================
     # Converting to binary representation
     # ==================================================================================================================
-    symbol_mat_binary = np.squeeze(((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int))
+    symbol_mat_binary = ((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int)
     # ==================================================================================================================
     # Bit manipulations according to the flags
     # ==================================================================================================================
-- 
2.43.0


From 84ca9d96d24bbc4aea3631c21d3e04ca1dd70162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 11/63] fix: pulse_shape with the 'imp' pulse up-samples the
 signal instead of raising

---
 CommDspy/channel/pulse_shaping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index b9855b4..55147be 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -151,7 +151,9 @@ def _get_pulse(method, osr=1, span=1, beta=0.5, t=None):
     elif method == 'rrc':
         return rrc_pulse(osr, span, beta, t)
     elif method == 'imp':
-        return np.array([1])
+        pulse    = np.zeros(osr * 2 * span)
+        pulse[0] = 1
+        return pulse
     else:
         raise ValueError('Method is not available, please try another')
 
-- 
2.43.0


From a1f301c8698e2bd336dfc87d0cff9870357664a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 12/63] fix: rcos_pulse is accurate around its removable
 singularity and supports a roll-off of 0

---
 CommDspy/channel/pulse_shaping.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index 55147be..00de50f 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -93,13 +93,15 @@ def rcos_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
-    tneq = t[np.abs(2*beta*t) != 1]
+    eq   = np.isclose(np.abs(2*beta*t), 1, rtol=0, atol=1e-8)
+    tneq = t[~eq]
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
     pulse = np.zeros_like(t)
-    pulse[np.abs(2*beta*t) == 1] = np.pi/4 * np.sinc(1/(2*beta))
-    pulse[np.abs(2*beta*t) != 1] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
+    if np.any(eq):
+        pulse[eq] = np.pi/4 * np.sinc(1/(2*beta))
+    pulse[~eq] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
     return pulse
 
 def rrc_pulse(osr, span, beta, t=None):
-- 
2.43.0


From 143de8ccedaee2dc0a428abb6b3d133c73882238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 13/63] fix: raised cosine interpolation coefficients are
 finite where |2*beta*t| is 1

---
 CommDspy/digital_delay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 2f9c19c..a914a27 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -81,7 +81,9 @@ def dig_delay_rcos_coeffs(n, alpha, forward=True, beta=0.5):
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-    return np.sinc(ii_vec - alpha) * np.cos(np.pi * beta * (ii_vec - alpha)) / (1 - (2 * beta * (ii_vec - alpha)) ** 2)
+    # cos(pi*x/2) / (1 - x^2) written as two sinc functions, which are finite at the removable singularity |x| = 1
+    x = 2 * beta * (ii_vec - alpha)
+    return np.sinc(ii_vec - alpha) * np.pi / 4 * (np.sinc((1 - x) / 2) + np.sinc((1 + x) / 2))
 
 def digital_oversample(signal_vec, osr, order, method, beta=0):
     """
-- 
2.43.0


From 8a43428e18fd6b8b63f07a871160f345b38ca0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 14/63] fix: buffer(clip=True) clips exactly the rows which run
 past the end of the signal

---
 CommDspy/auxiliary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index e87e5c5..9033cd3 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -115,7 +115,7 @@ def buffer(signal, length, overlap=0, delay=0, clip=False):
     rows_to_remove = np.sum(np.any(np.array([np.arange(full_len - length - max(overlap, 0), full_len)]).T - rows == 0, axis=1))
     if rows_to_remove > 0:
         matrix = matrix[:-1*rows_to_remove]
-    if clip and matrix[-1,:] not in linalg.hankel(signal, signal[::-1][:length])[:-1]:
+    if clip and len(matrix) > 0 and rows[len(matrix) - 1] + length > full_len - length:
         matrix = matrix[:-1]
     return matrix
 
-- 
2.43.0


From 67f0e9b2797b276ac8e5e5f1261ebd84896f7f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 15/63] fix: hamming counts differing positions for unsigned
 and boolean patterns too

---
 CommDspy/auxiliary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index 9033cd3..300733f 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -153,7 +153,7 @@ def hamming(pattern_block, codebook):
              num array where the (ii,jj) location hold for the hamming distance of pattern ii from codeword jj. Also
              returns the minimal hamming distance index for each block in the pattern
     """
-    hamming     = np.sum(np.abs(codebook[:, None, :] - pattern_block[None, :, :]), axis=2)
+    hamming     = np.sum(codebook[:, None, :] != pattern_block[None, :, :], axis=2)
     decoded_idx = np.argmin(hamming, axis=0)
     return hamming, decoded_idx
 
-- 
2.43.0


From a8238ef6e3994334ba7064f5a816d896469c2ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 16/63] fix: pattern locking returns a full length pattern when
 the signal is shorter than the pattern

---
 CommDspy/rx/lock_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 0f688b1..683ada3 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -19,7 +19,7 @@ def lock_pattern_to_signal_binary(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_nrz, signal_nrz, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr[:pattern_len])
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
 
 def lock_pattern_to_signal(pattern, signal):
@@ -39,6 +39,6 @@ def lock_pattern_to_signal(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_rep, signal_part, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr[:pattern_len])
     # start_idx = np.argmax(np.abs(xcorr))
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
\ No newline at end of file
-- 
2.43.0


From eb01022e347687688eaabe077234d2382f652b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:51 +0000
Subject: [PATCH 17/63] fix: prbs_checker_economy reports errors in the bits
 before the seed it locked on

---
 CommDspy/rx/checker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CommDspy/rx/checker.py b/CommDspy/rx/checker.py
index a11dc76..d19d1e6 100644
--- a/CommDspy/rx/checker.py
+++ b/CommDspy/rx/checker.py
@@ -63,6 +63,7 @@ def prbs_checker_economy(prbs_type, data_in, loss_th=100):
     # Getting generating polynomial for the PRBS
     # ==================================================================================================================
     poly_coeff = get_polynomial(prbs_type)
+    poly_rev   = np.concatenate([poly_coeff[:-1][::-1], [1]])  # generates the same PRBS backwards in time
     # ==================================================================================================================
     # Performing the check
     # ==================================================================================================================
@@ -75,10 +76,11 @@ def prbs_checker_economy(prbs_type, data_in, loss_th=100):
         # Generating the PRBS for the comparison
         # ----------------------------------------------------------------------------------------------------------
         prbs_seq, _ = prbs_generator(poly_coeff, seed[::-1], len(data_in) - seed_start - prbs_type.value)
+        prefix, _   = prbs_generator(poly_rev, seed, seed_start)
         # ----------------------------------------------------------------------------------------------------------
         # checking errors
         # ----------------------------------------------------------------------------------------------------------
-        error_bit = data_in[seed_start:] != np.concatenate([data_in[seed_start:seed_start+prbs_type.value], prbs_seq])
+        error_bit = data_in != np.concatenate([prefix[::-1], seed, prbs_seq])
         correct_bit_count = len(data_in) - np.sum(error_bit)
         loss_lock = np.sum(error_bit) >= loss_th
         if not loss_lock:
-- 
2.43.0


From 80196580e767277481750ec857a8d2050cdaa249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:51 +0000
Subject: [PATCH 18/63] fix: ffe_dfe accepts an FFE memory of ffe_len-1 and
 reports wrong memory sizes with its own message

---
 CommDspy/rx/ffe_dfe_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 2b2f73f..4ae2544 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -64,12 +64,12 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         elif len(zi_dfe) == len(dfe_taps):
             dfe_memory = zi_dfe
         else:
-            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {dfe_taps:d}')
+            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {len(dfe_taps):d}')
     if zi_ffe is None:
         zi_ffe = np.zeros(ffe_len - 1)
     elif len(zi_ffe) == ffe_len:
         zi_ffe = zi_ffe[1:]
-    elif len(zi_ffe) != len(ffe_len) - 1:
+    elif len(zi_ffe) != ffe_len - 1:
         raise ValueError(f'zi_ffe is not in the same size as the FFE, length is {len(zi_ffe):d} instead of {ffe_len - 1:d}')
     # ==================================================================================================================
     # If we only have FFE and without DFE we can use convolution for speed
-- 
2.43.0


From edf946937bd0b481ce4f1ee01e5f034d64b27001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:51 +0000
Subject: [PATCH 19/63] fix: ffe_dfe keeps the older FFE memory when the chunk
 is shorter than the FFE

---
 CommDspy/rx/ffe_dfe_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 4ae2544..e977e0d 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -76,7 +76,7 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # ==================================================================================================================
     if dfe_taps is None:
         rx_ffe_out = signal.convolve(ffe_taps, np.concatenate([zi_ffe, input_signal]), mode='valid')
-        return rx_ffe_out, input_signal[-1*ffe_len:]
+        return rx_ffe_out, np.concatenate([zi_ffe, input_signal])[-1*ffe_len:]
     # ==================================================================================================================
     # In case we hae DFE taps we need to make a decision, therefore we can not use convolution
     # ==================================================================================================================
-- 
2.43.0


From 876c06923bde4198cc57a2d691dab29744ed18a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:51 +0000
Subject: [PATCH 20/63] fix: filter classes no longer truncate their output to
 integers for integer inputs

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index b07a6c1..663c348 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -49,7 +49,7 @@ class Filter:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(np.asarray(data_chunk), float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
@@ -131,7 +131,7 @@ class FilterTII:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(np.asarray(data_chunk), float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
-- 
2.43.0


From 5f889f23caa6b04d2cbc8f5e5f4d98a13b10b40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:51 +0000
Subject: [PATCH 21/63] fix: transposed filters support a memory-less (order 0)
 filter

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index 663c348..1f37f86 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -122,7 +122,7 @@ class FilterTII:
 
     def _process(self, x):
         # Creating y
-        a0_y = self.b[0] * x + self._z[0]
+        a0_y = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         y    = a0_y / self.a[0]
         # Advancing the memory
         z_temp = np.concatenate([self._z[1:], [0]])
@@ -190,7 +190,7 @@ class FfeDfeFilterTII(FilterTII):
 
     def _process(self, x):
         # Creating \tilde{x} and the sliced \hat{x[n]}
-        a0_xtilde = self.b[0] * x + self._z[0]
+        a0_xtilde = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         xtilde = a0_xtilde / self.a[0]
         xhat   = slicer(np.array([xtilde]), self.levels)
         # Advancing the memory
-- 
2.43.0


From c7009cdb5e9f5ed324c94db51ef2e3096b9b0d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:51 +0000
Subject: [PATCH 22/63] fix: equalizer estimation supports normalize=True
 without DFE taps

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 333bc4b..07763f4 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -157,7 +157,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     err       = sig_out - skewed_ref
     mse = 10 * np.log10(power(err) / power(sig_out))
     if normalize:
-        return ffe / dig_gain, dfe / dig_gain, dig_gain, ls_err, mse
+        return ffe / dig_gain, dfe / dig_gain if dfe is not None else None, dig_gain, ls_err, mse
     else:
         return ffe, dfe, 1, ls_err, mse
 
-- 
2.43.0


From 2ce6c158d3ee7780df42a13bc5e2dfbf88d2a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:51 +0000
Subject: [PATCH 23/63] fix: equalizer estimation with 2 or more DFE taps no
 longer fits rows past the end of the signal

---
 CommDspy/equalization_estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 07763f4..e2ea3f1 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -118,8 +118,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    postcursor_num = np.max((ffe_postcursor, dfe_taps))
-    chop_len = postcursor_num + ffe_precursor + 1
+    chop_len = ffe_postcursor + ffe_precursor + max(dfe_taps, 1)
     mat_row_num    = len(signal) - chop_len
     # ==================================================================================================================
     # Building the FFE part of the matrix in the Ax=b system
-- 
2.43.0


From c90a4c9d7c9bd511461935f871244d2c5ca586d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:51 +0000
Subject: [PATCH 24/63] fix: regularized least squares solve the documented
 problem, without a hidden intercept

---
 CommDspy/misc/least_squares.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/least_squares.py b/CommDspy/misc/least_squares.py
index a4afd80..8119052 100644
--- a/CommDspy/misc/least_squares.py
+++ b/CommDspy/misc/least_squares.py
@@ -43,7 +43,7 @@ def ridge_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L2 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||^2_2
     """
-    model = Ridge(alpha=reg_lambda)
+    model = Ridge(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
@@ -57,7 +57,7 @@ def lasso_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L1 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||_1
     """
-    model = Lasso(alpha=reg_lambda)
+    model = Lasso(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
-- 
2.43.0


From 0f86bd4c3e8b0bd82ab56ee77a4c64fbc5d43ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:37 +0000
Subject: [PATCH 25/63] fix: channel_estimation_prbs applies pn_inv_postcoding
 to its reference pattern

---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index e6ed182..8f99157 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -57,7 +57,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
         return True, 0, [0]
     prbs_seq, _ = prbs_generator(poly_coeff, init_seed, 2 * prbs_len)
     prbsq       = bin2symbol(prbs_seq, len(levels), bit_order_inv, False, False, pn_inv_precoding)
-    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale)
+    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale, pn_inv=pn_inv_postcoding) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale, pn_inv=pn_inv_postcoding)
     # ==================================================================================================================
     # Locking on the pattern beginning
     # ==================================================================================================================
-- 
2.43.0


From f32e744ad4008f649d014f536fcb97d4f80838f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:19 +0000
Subject: [PATCH 26/63] fix: channel_estimation_prbs estimates the channel
 itself, not the channel divided by the signal variance

---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index 8f99157..bf0c48d 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -69,7 +69,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
     shift_idx    = np.concatenate([np.arange(channel_postcursor, prbs_len, 1), np.arange(0, channel_postcursor, 1)])
     reps         = int(np.floor(len(signal) / prbs_len))
     signal_shift = np.mean(np.reshape(signal[:(prbs_len*reps)], [-1, prbs_len]), axis=0)
-    signal_shift = signal_shift[shift_idx] / np.var(signal_shift)
+    signal_shift = signal_shift[shift_idx]
     # ==================================================================================================================
     # Performing least squares to find the channel estimation
     # ==================================================================================================================
-- 
2.43.0


From 5ed65d238c1a227426734e0417f744a0fdda58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:40 +0000
Subject: [PATCH 27/63] fix: the trellis orders its memory by input index, not
 by the order the generator entries were written

---
 CommDspy/misc/ml_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 48128f4..d44f6ec 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -60,7 +60,7 @@ class Trellis:
         # ==============================================================================================================
         memory = []  # hold the number of memory registers in the coding scheme
         constraint_len = 0
-        for ii in G:
+        for ii in range(self.n_in):
             memory.append(G[ii].shape[1] - 1)
             if G[ii].shape[1] > constraint_len:
                 constraint_len = G[ii].shape[1]
-- 
2.43.0


From 035855a7299fc7351eefe7b9ba4b1e2d62e16977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:40 +0000
Subject: [PATCH 28/63] fix: ffe_dfe accepts ffe_taps=None as documented

---
 CommDspy/rx/ffe_dfe_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index e977e0d..7a6eabf 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -50,6 +50,8 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # ==================================================================================================================
     # If both FFE and DFE are None, this block is doing nothing
     # ==================================================================================================================
+    if ffe_taps is None:
+        ffe_taps = np.array([1])
     if len(ffe_taps) == 1 and dfe_taps is None:
         return input_signal * ffe_taps
     # ==================================================================================================================
-- 
2.43.0


From 4a1d07da9f0f14bb285d57d7aafadcdf96bab8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:56 +0000
Subject: [PATCH 29/63] fix: Viterbi decoding selects survivors by accumulated
 distance over existing transitions only

---
 CommDspy/rx/decoding.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 921c3f8..43357a0 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -298,8 +298,10 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
     # ==================================================================================================================
     # Starting the viterbi algorithm block by block
     # ==================================================================================================================
-    output_tensor_reshape = np.reshape(trellis_obj.output_tensor, [-1, n_out])
-    in_state_int_vec      = np.arange(trellis_obj.num_states)
+    # All the transitions of the trellis: out_state --> in_state, with the matching input and output
+    branches  = [(bin2uint(np.array(state, dtype=int)), bin2uint(np.array(next_state, dtype=int)), branch_in, branch_out)
+                 for (branch_in, state), (branch_out, next_state) in trellis_obj.trellis.items()]
+    out_state_vec, in_state_vec, branch_inputs, branch_outputs = [np.array(val).astype(int) for val in zip(*branches)]
     for ii in range(pattern_block.shape[0]):
         # ----------------------------------------------------------------------------------------------------------
         # Forward propagating - Computing the accumulative hamming along each path, selecting the best
@@ -307,25 +309,25 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
         for chunk_idx in range(n_chunks):
             pattern_chunk = pattern_block[ii, n_out*chunk_idx:n_out*(chunk_idx+1)]
             # ----------------------------------------------------------------------------------------------------------
-            # For each chunk compute all possible hamming distances
+            # For each chunk compute all possible accumulated hamming distances
             # ----------------------------------------------------------------------------------------------------------
-            # step_hamming[ii,jj] = hamming from state ii to state jj, computing for all transitions in one step
-            step_hamming, _ = hamming(output_tensor_reshape, pattern_chunk[None, :])
-            step_hamming    = np.reshape(step_hamming, trellis_obj.output_tensor.shape[:-1])
+            path_hamming = np.sum(branch_outputs != pattern_chunk, axis=1)
+            if chunk_idx > 0:
+                path_hamming = path_hamming + hamming_dist[out_state_vec, chunk_idx-1]
             # ----------------------------------------------------------------------------------------------------------
-            # Noting the best for this step, the return path and the input for the best per state
+            # Noting the best path into each state: its distance, the return path and the input
             # ----------------------------------------------------------------------------------------------------------
-            hamming_state[:, chunk_idx] = np.argmin(step_hamming, axis=0)
-            if chunk_idx > 0:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0) + hamming_dist[hamming_state[:,chunk_idx], chunk_idx-1]
-            else:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0)
+            order     = np.lexsort((path_hamming, in_state_vec))
+            _, first  = np.unique(in_state_vec[order], return_index=True)
+            survivors = order[first]
+            hamming_state[:, chunk_idx] = out_state_vec[survivors]
+            hamming_dist[:, chunk_idx]  = path_hamming[survivors]
             decoded_mat_prev = decoded_mat.copy()
-            out_state = hamming_state[in_state_int_vec, chunk_idx]
+            out_state = hamming_state[:, chunk_idx]
             if chunk_idx > 0:
-                decoded_mat[in_state_int_vec, :n_in*(chunk_idx+1)] = np.concatenate([decoded_mat_prev[out_state, :n_in * chunk_idx], trellis_obj.input_tensor[out_state, in_state_int_vec]], axis=1)
+                decoded_mat[:, :n_in*(chunk_idx+1)] = np.concatenate([decoded_mat_prev[out_state, :n_in * chunk_idx], branch_inputs[survivors]], axis=1)
             else:
-                decoded_mat[in_state_int_vec, :n_in*(chunk_idx+1)] = trellis_obj.input_tensor[out_state, in_state_int_vec]
+                decoded_mat[:, :n_in*(chunk_idx+1)] = branch_inputs[survivors]
         # ----------------------------------------------------------------------------------------------------------
         # Backward propagating - Going along the selected path, recovering the input
         # ----------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 1c223ad58d69a211c5e053ce0b89441ba9ee39bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:43 +0000
Subject: [PATCH 30/63] fix: coding_conv computes its feedback over F2, exact
 for patterns of any length

---
 CommDspy/tx/coding.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index c9a3b3b..80cacfb 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -289,6 +289,8 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
         else:
             iir_vals = feedback[ii].astype(float)
         in_pattern = pattern_reshape.T[ii]
+        reg_init   = np.zeros(G_ii.shape[1] - 1, dtype=int)
+        reg_vals   = np.concatenate([reg_init[::-1], _register_input(in_pattern, reg_init, iir_vals)])
         for jj in range(n_out):
             # ------------------------------------------------------------------------------------------------------
             # Getting the ijth transfer function
@@ -315,7 +317,7 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
             # ------------------------------------------------------------------------------------------------------
             # Passing the data through the transfer function
             # ------------------------------------------------------------------------------------------------------
-            out_ii_jj     = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
+            out_ii_jj     = lfilter(G_ii_jj.astype(float), 1.0, reg_vals)[len(reg_init):]
             out_vals[jj] += out_ii_jj
     # ==================================================================================================================
     # Setting the data to binary
@@ -325,3 +327,20 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
     # Reshaping back to the output
     # ==================================================================================================================
     return np.reshape(out_vals.T, -1)
+
+def _register_input(in_pattern, reg_init, feedback):
+    """
+    :param in_pattern: binary inputs to the shift register
+    :param reg_init: initial content of the shift register, the newest value first
+    :param feedback: feedback polynomial, or 1.0 if there is no feedback
+    :return: the binary values entering the shift register, the feedback is computed over F2 and is exact for any length
+    """
+    if type(feedback) == float:
+        return in_pattern
+    taps     = np.asarray(feedback[1:]).astype(int)
+    register = np.concatenate([reg_init, np.zeros(max(len(taps) - len(reg_init), 0))]).astype(int)
+    reg_in   = np.zeros(len(in_pattern), dtype=int)
+    for nn, bit in enumerate(in_pattern):
+        reg_in[nn] = (bit + taps.dot(register[:len(taps)])) % 2
+        register   = np.concatenate([[reg_in[nn]], register])[:-1]
+    return reg_in
-- 
2.43.0


From d77cba3d70c15d665513ee2e8cfa7929f69d9bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:43 +0000
Subject: [PATCH 31/63] fix: coding_conv starts from the given initial memory

---
 CommDspy/tx/coding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index 80cacfb..6f4f8bb 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -289,7 +289,7 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
         else:
             iir_vals = feedback[ii].astype(float)
         in_pattern = pattern_reshape.T[ii]
-        reg_init   = np.zeros(G_ii.shape[1] - 1, dtype=int)
+        reg_init   = np.zeros(G_ii.shape[1] - 1, dtype=int) if zi is None or ii not in zi else np.asarray(zi[ii])
         reg_vals   = np.concatenate([reg_init[::-1], _register_input(in_pattern, reg_init, iir_vals)])
         for jj in range(n_out):
             # ------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 6735b97e11c9106fd38e413a1c3fda389b52273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:43 +0000
Subject: [PATCH 32/63] fix: export the documented dig_delay_rcos_coeffs

---
 CommDspy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/__init__.py b/CommDspy/__init__.py
index d626d26..a7add92 100644
--- a/CommDspy/__init__.py
+++ b/CommDspy/__init__.py
@@ -5,5 +5,5 @@ from CommDspy.constants import PrbsEnum, ConstellationEnum, EYE_COLORMAP
 from CommDspy.auxiliary import get_polynomial, get_levels, power, rms, buffer, upsample, get_gray_level_vec, zoh, get_bin_perm, hamming, bin2uint, uint2bin
 from CommDspy.channel_estimation import channel_estimation_prbs
 from CommDspy.equalization_estimation import equalization_estimation_prbs, equalization_estimation
-from CommDspy.digital_delay import dig_delay_lagrange_coeffs, dig_delay_sinc_coeffs, digital_oversample
+from CommDspy.digital_delay import dig_delay_lagrange_coeffs, dig_delay_sinc_coeffs, dig_delay_rcos_coeffs, digital_oversample
 from CommDspy.eye_diagram import eye_diagram
-- 
2.43.0


From 78577a7f3699b2b468eeb51b39e7917732388585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:43 +0000
Subject: [PATCH 33/63] fix: example receiver decodes Gray and differential
 coding with the matching decoder

---
 example_simulation/simulation_parts/receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index dc12ef5..bcd87c4 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -110,9 +110,9 @@ class Decoder:
         # ==============================================================================================================
         pattern_decoded = signal_chunk.copy()
         if self.coding_gray:
-            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, self.constellation)
-        if self.coding_differential:
             pattern_decoded = cdsp.rx.decoding_gray(pattern_decoded, self.constellation)
+        if self.coding_differential:
+            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, self.constellation)
         # ==============================================================================================================
         # Converting symbols to binary if needed
         # ==============================================================================================================
-- 
2.43.0


From 87c2875ab7156513a65a68f86101a362f9075d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:43 +0000
Subject: [PATCH 34/63] fix: example receiver calls the existing LMS gradient
 function

---
 example_simulation/simulation_parts/receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index bcd87c4..76a99b2 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -236,7 +236,7 @@ class Receiver:
             # Converging the FFE and DFE
             # ------------------------------------------------------------------------------------------------------
             if self.converge_lms:
-                mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.lms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
+                mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.ddlms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
                                                                    ffe_tap_idx=self.lms_ffe_idx,
                                                                    dfe_tap_idx=self.lms_dfe_idx)
                 self.ffe_dfe.ffe_vec += -1 * self.lms_lr * ffe_grad_vec
-- 
2.43.0


From d35c78e6eb9e78cfcbc4f8a5c2627b0bd150afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:43 +0000
Subject: [PATCH 35/63] fix: example channel uses the IIR coefficients it is
 given

---
 example_simulation/simulation_parts/data_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/data_objects.py b/example_simulation/simulation_parts/data_objects.py
index ce02795..15d6f97 100644
--- a/example_simulation/simulation_parts/data_objects.py
+++ b/example_simulation/simulation_parts/data_objects.py
@@ -61,7 +61,7 @@ class ChannelData:
         self.pulse_span     = pulse_span
         self.rolloff        = rolloff
         self.ch_type        = ch_type
-        self.iir_coefs      = [1] if iir_coefs is None else fir_coefs
+        self.iir_coefs      = [1] if iir_coefs is None else iir_coefs
         self.fir_coefs      = [1] if fir_coefs is None else fir_coefs
         self.osr            = osr
         self.snr            = snr
-- 
2.43.0


From 8f13c9ead80bef2ddac7efd5e48734d570eab897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:32 +0000
Subject: [PATCH 36/63] fix: example encoder and decoder reach their three
 level branch instead of converting to a non-integer number of bits

---
 example_simulation/simulation_parts/receiver.py    | 2 +-
 example_simulation/simulation_parts/transmitter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index 76a99b2..d76ade5 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -116,7 +116,7 @@ class Decoder:
         # ==============================================================================================================
         # Converting symbols to binary if needed
         # ==============================================================================================================
-        if self.bits_per_symbol > 1:
+        if self.bits_per_symbol > 1 and np.isclose(int(self.bits_per_symbol), self.bits_per_symbol):
             pattern_decoded = cdsp.rx.symbol2bin(pattern_decoded,
                                                  num_of_symbols=2**self.bits_per_symbol,
                                                  bit_order_inv=self.bit_order_inv,
diff --git a/example_simulation/simulation_parts/transmitter.py b/example_simulation/simulation_parts/transmitter.py
index f6a28ee..6385144 100644
--- a/example_simulation/simulation_parts/transmitter.py
+++ b/example_simulation/simulation_parts/transmitter.py
@@ -64,7 +64,7 @@ class Encoder:
         # ==============================================================================================================
         # Converting to symbols if needed
         # ==============================================================================================================
-        if self.bits_per_symbol > 1:
+        if self.bits_per_symbol > 1 and np.isclose(int(self.bits_per_symbol), self.bits_per_symbol):
             pattern_coded = cdsp.tx.bin2symbol(pattern_coded,
                                                num_of_symbols=2**self.bits_per_symbol,
                                                bit_order_inv=self.bit_order_inv,
-- 
2.43.0


From a2b4cf005d0fcff3f99981f5f718979b8e711acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:32 +0000
Subject: [PATCH 37/63] fix: example receiver demaps relative to its own slicer
 levels

---
 example_simulation/simulation_parts/receiver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index d76ade5..34fbbeb 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -254,7 +254,8 @@ class Receiver:
     def extract_data(self):
         self.demapped_chunk_last = self.demapped_chunk
         self.decoded_chunk_last  = self.decoded_chunk
-        self.demapped_chunk = cdsp.rx.demapping(self.slicer_out, self.constellation)
+        rx_scale            = np.max(cdsp.get_levels(self.constellation)) / np.max(self.levels)
+        self.demapped_chunk = cdsp.rx.demapping(self.slicer_out * rx_scale, self.constellation)
         self.decoded_chunk  = self.decoder(self.demapped_chunk)
         return self.decoded_chunk
 
-- 
2.43.0


From 799b933e24a07c85f4649faeeca0f2cdd240464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:47 +0000
Subject: [PATCH 38/63] fix: trellis keeps the memory of inputs without
 feedback when another input has feedback

---
 CommDspy/misc/ml_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index d44f6ec..973c312 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -142,7 +142,7 @@ def create_trellis_bin(G, states, inputs, memory_cumsum, feedback=None, use_feed
                 else:
                     for jj in range(n_out):
                         G_kk_jj = G[kk][jj]
-                        if len(G_kk_jj) == 1 or use_feedback[kk, jj] == 0:
+                        if kk in feedback.keys() and use_feedback[kk, jj] == 0:
                             # no memory, either systematic or always 0 output, depending on G_ii_jj[0] value.
                             # 1 - systematic ; 0 - zero output
                             c_vec[jj] = c_vec[jj] ^ (in_k * G_kk_jj[0])
-- 
2.43.0


From 9ab2a0a30e59ee32af4def9387bcbfc695b4164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:36 +0000
Subject: [PATCH 39/63] fix: example decoder undoes the binary codings in the
 reverse order of the encoder

---
 .../simulation_parts/receiver.py              | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index 34fbbeb..5685b63 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -132,25 +132,25 @@ class Decoder:
             if self.pn_inv:
                 pattern_decoded = 2 - pattern_decoded
         # ==============================================================================================================
-        # Binary decoding options
+        # Binary decoding options, in the reverse order of the encoding
         # ==============================================================================================================
-        if self.coding_bin_differential:
-            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, cdsp.ConstellationEnum.OOK)
-        if self.coding_manchester:
-            pattern_decoded = cdsp.rx.decoding_manchester(pattern_decoded)
-        if self.coding_bipolar:
-            pattern_decoded = cdsp.rx.decoding_bipolar(pattern_decoded)
-        if self.coding_mlt3:
-            pattern_decoded = cdsp.rx.decoding_mlt3(pattern_decoded)
-        if self.coding_diff_manchester:
-            pattern_decoded = cdsp.rx.decoding_differential_manchester(pattern_decoded)
-        if self.coding_linear:
-            pattern_decoded = cdsp.rx.decoding_linear(pattern_decoded, self.G)
         if self.coding_conv:
             pattern_decoded, _ = cdsp.rx.decoding_conv_viterbi(pattern_decoded, self.G,
                                                                tb_len=self.chunk_size,
                                                                feedback=self.feedback,
                                                                use_feedback=self.use_feedback)
+        if self.coding_linear:
+            pattern_decoded = cdsp.rx.decoding_linear(pattern_decoded, self.G)
+        if self.coding_diff_manchester:
+            pattern_decoded = cdsp.rx.decoding_differential_manchester(pattern_decoded)
+        if self.coding_mlt3:
+            pattern_decoded = cdsp.rx.decoding_mlt3(pattern_decoded)
+        if self.coding_bipolar:
+            pattern_decoded = cdsp.rx.decoding_bipolar(pattern_decoded)
+        if self.coding_manchester:
+            pattern_decoded = cdsp.rx.decoding_manchester(pattern_decoded)
+        if self.coding_bin_differential:
+            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, cdsp.ConstellationEnum.OOK)
         return pattern_decoded
 class Receiver:
     def __init__(self, ctle_data, adc_data, ffe_dfe_data, mapping_data, coding_data, lms_lr=2**(-10), digital_gain=1):
-- 
2.43.0


From 55c222752f1e64bf27afcf71a6ecb5f7c45197a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:15 +0000
Subject: [PATCH 40/63] fix: PRBS equalizer estimation aligns its reference to
 the FFE cursor also with more DFE taps than FFE post-cursors

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index e2ea3f1..dd02573 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -60,7 +60,7 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     init_seed       = np.array([1] * prbs_type.value)
     prbs_len        = 2 ** len(init_seed) - 1
     levels          = get_levels(constellation, prbs_full_scale)
-    postcursor_num  = np.max((ffe_postcursor, dfe_taps))
+    postcursor_num  = ffe_postcursor
     # ==================================================================================================================
     # Getting reference PRBS and coding
     # ==================================================================================================================
-- 
2.43.0


From b712a273eaee316522a462300515e78ed01b2c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:12 +0000
Subject: [PATCH 41/63] fix: bipolar decoding of unsigned integer symbols

---
 CommDspy/rx/decoding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 43357a0..a07105c 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -95,6 +95,7 @@ def decoding_bipolar(pattern, error_detection=False):
         neighboring '0' values as well.
     :return:
     """
+    pattern = pattern.astype(np.result_type(pattern, int))  # unsigned types can not hold the negative marks
     if not error_detection:
         return np.abs(pattern - 1)
     else:
-- 
2.43.0


From fea0402702edb9fe93cc5ab9757f155ce993a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:12 +0000
Subject: [PATCH 42/63] fix: MLT-3 decoding of unsigned integer symbols

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index a07105c..6f6fe71 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -116,7 +116,7 @@ def decoding_bipolar(pattern, error_detection=False):
         return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
-    pattern_flat = np.reshape(pattern, -1)
+    pattern_flat = np.reshape(pattern, -1).astype(np.result_type(pattern, int))
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-- 
2.43.0


From 22f3beec07e359cc2f4b4b153844b6bc564147d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:12 +0000
Subject: [PATCH 43/63] fix: Manchester decoding of unsigned and boolean bits

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 6f6fe71..df1cb31 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -76,7 +76,7 @@ def decoding_manchester(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-    pattern_flat    = np.reshape(pattern, [-1, 2])
+    pattern_flat    = np.reshape(pattern, [-1, 2]).astype(int)
     transitions     = -1 * np.diff(pattern_flat, axis=1) # should be -1, 1 or 0 for mistakes
     decoded_pattern = (transitions + 1) / 2
 
-- 
2.43.0


From 508a5fa851b39013150286a91cb86d43ae2524aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:12 +0000
Subject: [PATCH 44/63] fix: differential Manchester decoding of unsigned bits

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index df1cb31..1959744 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -140,7 +140,7 @@ def decoding_differential_manchester(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-    pattern_flat = np.reshape(pattern, [-1, 2])
+    pattern_flat = np.reshape(pattern, [-1, 2]).astype(int)
     transitions  = 1 -  np.abs(np.diff(pattern_flat, axis=1))  # should be -1, 1 or 0 for mistakes
     return np.reshape(transitions, new_pattern_shape).astype(int)
 
-- 
2.43.0


From ff8ae5862fe7aa13972e3d57fdeefcb49a6b42b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:12 +0000
Subject: [PATCH 45/63] fix: binary pattern lock for unsigned and narrow
 integer bits

---
 CommDspy/rx/lock_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 683ada3..60489a7 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -13,8 +13,8 @@ def lock_pattern_to_signal_binary(pattern, signal):
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
-    pattern_nrz = pattern_rep * 2 - 1
-    signal_nrz = signal[:np.min((pattern_len, data_len))] * 2 - 1
+    pattern_nrz = pattern_rep.astype(np.result_type(pattern_rep, int)) * 2 - 1
+    signal_nrz = signal[:np.min((pattern_len, data_len))].astype(np.result_type(signal, int)) * 2 - 1
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
-- 
2.43.0


From 166dcc8bbcfcb2f6e7097e4e3690d76ebff3ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:12 +0000
Subject: [PATCH 46/63] fix: pattern lock for narrow integer symbols

---
 CommDspy/rx/lock_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 60489a7..a80e3aa 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -34,11 +34,11 @@ def lock_pattern_to_signal(pattern, signal):
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
-    signal_part = signal[:np.min((pattern_len, data_len))]
+    signal_part = np.asarray(signal[:np.min((pattern_len, data_len))])
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
-    xcorr = correlate(pattern_rep, signal_part, mode='valid')
+    xcorr = correlate(pattern_rep.astype(np.result_type(pattern_rep, int)), signal_part.astype(np.result_type(signal_part, int)), mode='valid')
     start_idx = np.argmax(xcorr[:pattern_len])
     # start_idx = np.argmax(np.abs(xcorr))
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
\ No newline at end of file
-- 
2.43.0


From 7a6d9bc75e782493f353009c2f51bc950d087a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:12 +0000
Subject: [PATCH 47/63] fix: power of a signal held in a narrow integer type

---
 CommDspy/auxiliary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index 300733f..3d71d1e 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -65,6 +65,8 @@ def power(signal):
     :param signal:
     :return: Computes the mean power of the signal
     """
+    signal = np.asarray(signal)
+    signal = signal.astype(np.result_type(signal, float))  # narrow integer types overflow when squared
     return np.mean(signal * np.conj(signal))
 
 def rms(signal):
-- 
2.43.0


From 9266f3e0d7e4e8d318afd41326259988d97ac010 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:06:51 +0000
Subject: [PATCH 48/63] fix: LMS convergence of the example receiver ends when
 the MSE settles

---
 example_simulation/simulation_parts/receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index 5685b63..d02c249 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -241,12 +241,12 @@ class Receiver:
                                                                    dfe_tap_idx=self.lms_dfe_idx)
                 self.ffe_dfe.ffe_vec += -1 * self.lms_lr * ffe_grad_vec
                 self.ffe_dfe.dfe_vec += -1 * self.lms_lr * dfe_grad_vec
-                self.lms_mse_last = mse
                 # **********************************************************************************************
                 # Stop condition
                 # **********************************************************************************************
-                if abs(mse - self.lms_mse_last) > 10 ** (self.lms_mse_diff_th / 20):
+                if abs(mse - self.lms_mse_last) < 10 ** (self.lms_mse_diff_th / 20):
                     self.converge_lms = False
+                self.lms_mse_last = mse
             if not self.converge_cdr and not self.converge_lms:
                 self.converge      = False
                 self.converge_done = True
-- 
2.43.0


From e81b657de0a0300880ba122a01929e7a933afbae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:06:51 +0000
Subject: [PATCH 49/63] fix: convergence of the example receiver without DFE
 taps

---
 example_simulation/simulation_parts/receiver.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index d02c249..c51eed5 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -236,11 +236,12 @@ class Receiver:
             # Converging the FFE and DFE
             # ------------------------------------------------------------------------------------------------------
             if self.converge_lms:
-                mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.ddlms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
-                                                                   ffe_tap_idx=self.lms_ffe_idx,
-                                                                   dfe_tap_idx=self.lms_dfe_idx)
+                mse, ffe_grad_vec, *dfe_grad_vec = cdsp.rx.ddlms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
+                                                                    ffe_tap_idx=self.lms_ffe_idx,
+                                                                    dfe_tap_idx=self.lms_dfe_idx)
                 self.ffe_dfe.ffe_vec += -1 * self.lms_lr * ffe_grad_vec
-                self.ffe_dfe.dfe_vec += -1 * self.lms_lr * dfe_grad_vec
+                if dfe_grad_vec:  # ddlms_grad returns the DFE gradient only if there are DFE taps
+                    self.ffe_dfe.dfe_vec += -1 * self.lms_lr * dfe_grad_vec[0]
                 # **********************************************************************************************
                 # Stop condition
                 # **********************************************************************************************
-- 
2.43.0


From 8a879339da5c07cfd31bd78885368f6cf03a3f69 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:06:51 +0000
Subject: [PATCH 50/63] fix: convergence of the example receiver does not
 overwrite the configured taps

---
 example_simulation/simulation_parts/receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index c51eed5..21955d4 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -239,9 +239,9 @@ class Receiver:
                 mse, ffe_grad_vec, *dfe_grad_vec = cdsp.rx.ddlms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
                                                                     ffe_tap_idx=self.lms_ffe_idx,
                                                                     dfe_tap_idx=self.lms_dfe_idx)
-                self.ffe_dfe.ffe_vec += -1 * self.lms_lr * ffe_grad_vec
+                self.ffe_dfe.ffe_vec = self.ffe_dfe.ffe_vec - self.lms_lr * ffe_grad_vec
                 if dfe_grad_vec:  # ddlms_grad returns the DFE gradient only if there are DFE taps
-                    self.ffe_dfe.dfe_vec += -1 * self.lms_lr * dfe_grad_vec[0]
+                    self.ffe_dfe.dfe_vec = self.ffe_dfe.dfe_vec - self.lms_lr * dfe_grad_vec[0]
                 # **********************************************************************************************
                 # Stop condition
                 # **********************************************************************************************
-- 
2.43.0


From ea4991f7edcbfc632c7756491cfb524134179139 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:06:51 +0000
Subject: [PATCH 51/63] fix: get_prev_seed of the example PRBS generator

---
 example_simulation/simulation_parts/transmitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/example_simulation/simulation_parts/transmitter.py b/example_simulation/simulation_parts/transmitter.py
index 6385144..ee4d612 100644
--- a/example_simulation/simulation_parts/transmitter.py
+++ b/example_simulation/simulation_parts/transmitter.py
@@ -7,11 +7,13 @@ class PrbsGen:
         self.gen_poly   = prbs_data.gen_poly
         self.chunk_size = prbs_data.chunk_size
         self.seed       = prbs_data.seed if prbs_data.seed is not None else np.ones_like(self.gen_poly)
+        self.seed_prev  = self.seed
 
     def __iter__(self):
         return self
 
     def __next__(self):
+        self.seed_prev   = self.seed
         chunk, self.seed = cdsp.tx.prbs_gen(self.gen_poly, self.seed, self.chunk_size)
         return chunk
 
-- 
2.43.0


From fcbde592f094ea7174acf2ec830a2f5c59040fc1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:24:41 +0000
Subject: [PATCH 52/63] fix: root raised cosine pulse at integer times

---
 CommDspy/channel/pulse_shaping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index 00de50f..573271f 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -122,7 +122,7 @@ def rrc_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
-    pulse = np.zeros_like(t)
+    pulse = np.zeros_like(t, dtype=float)
     pulse[~neq0] = 1 + beta * (4/np.pi - 1)
     pulse[~neqb] = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/(4*beta)))
     pulse[neqb & neq0] = 4 * beta / np.pi * (np.cos((1 + beta) * np.pi * t[neqb & neq0]) + (np.sin((1 - beta)*np.pi*t[neqb & neq0]) / (4*beta*t[neqb & neq0]))) / (1 - (4*beta*t[neqb & neq0])**2)
-- 
2.43.0


From 28635355dbd08d1bd07ede2825dfc81b706cba86 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:24:22 +0000
Subject: [PATCH 53/63] fix: Lagrange delay coefficients of orders above 20

---
 CommDspy/digital_delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index a914a27..c98adf8 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -42,7 +42,7 @@ def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     # Creating the nominator component vector and the denominator component matrix
     # ==================================================================================================================
     nom_mat = np.tile(alpha - ii_vec, [len(ii_vec), 1])
-    den_mat = ii_vec - ii_vec[:, None]
+    den_mat = (ii_vec - ii_vec[:, None]).astype(float)  # the products exceed the integer range for high orders
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-- 
2.43.0


From fdd7d269cf42a409ec1fe9e8761f0f12aaac4c4d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:24:22 +0000
Subject: [PATCH 54/63] fix: dBc spectrum of a signal held in a narrow integer
 type

---
 CommDspy/psa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/psa.py b/CommDspy/psa.py
index b93e5de..d39dfb9 100644
--- a/CommDspy/psa.py
+++ b/CommDspy/psa.py
@@ -1,6 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 from scipy.signal import get_window, welch
+from CommDspy.auxiliary import rms
 
 
 def psa(signal, fs, rbw=None, mode='dB', obw=None, r=50, osr=4, window='blackmanharris', overlap=0.75, fullscale=1, sb_mode='DSB', plot=False):
@@ -60,7 +61,7 @@ def psa(signal, fs, rbw=None, mode='dB', obw=None, r=50, osr=4, window='blackman
     elif mode == 'dBuv/sqrt(Hz)':
         norm_factor = np.sqrt(1 / effective_fs) * 1e6
     elif mode == 'dBc':
-        vrms = np.sqrt(np.mean(signal_flat * np.conj(signal_flat)))
+        vrms = rms(signal_flat)
         if obw is None:
             obw = rbw
         norm_factor = np.sqrt(obw / effective_fs) / vrms
-- 
2.43.0


From 9f5718469521303bb361b896c69697f5043fcb91 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:24:22 +0000
Subject: [PATCH 55/63] fix: framing of integers beyond the precision of a
 float

---
 CommDspy/auxiliary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index 3d71d1e..0b3911f 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -101,7 +101,8 @@ def buffer(signal, length, overlap=0, delay=0, clip=False):
     # ==================================================================================================================
     # Taking delay into consideration
     # ==================================================================================================================
-    signal_full = np.concatenate((np.zeros(delay), signal, np.zeros(length))) if delay > 0 else np.concatenate((signal, np.zeros(length)))
+    zero_type   = type(signal[0])  # padding with floats would round large integers
+    signal_full = np.concatenate((np.zeros(delay, zero_type), signal, np.zeros(length, zero_type)))
     # ==================================================================================================================
     # Creating the full overlapping hankel matrix
     # ==================================================================================================================
-- 
2.43.0


From af697a309bc9fd6e8dcf07dbb50ba0afd4af7f60 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:25:48 +0000
Subject: [PATCH 56/63] fix: timing step of signals held in narrow integer
 types

---
 CommDspy/rx/clock_data_recovery.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/rx/clock_data_recovery.py b/CommDspy/rx/clock_data_recovery.py
index dbfb80f..2145076 100644
--- a/CommDspy/rx/clock_data_recovery.py
+++ b/CommDspy/rx/clock_data_recovery.py
@@ -18,6 +18,7 @@ def mueller_muller_step(signal_chunk, reference_signal, pre_weight=1, post_weigh
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    reference_signal = np.asarray(reference_signal, dtype=float)  # narrow integer types overflow in the products
     reference_pre  = reference_signal[1:]
     reference_post = reference_signal[:-1]
     # ==================================================================================================================
-- 
2.43.0


From fc62fea8db9d7dd6845ec6e044ad286fb06d2574 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:44:15 +0000
Subject: [PATCH 57/63] fix: LMS gradients of signals held in narrow integer
 types

---
 CommDspy/rx/least_mean_squares.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/rx/least_mean_squares.py b/CommDspy/rx/least_mean_squares.py
index a980318..475b074 100644
--- a/CommDspy/rx/least_mean_squares.py
+++ b/CommDspy/rx/least_mean_squares.py
@@ -49,6 +49,7 @@ def ddlms_grad(input_vec, output_vec, levels, ffe_tap_idx=np.array([]), dfe_tap_
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    output_vec = np.asarray(output_vec, dtype=float)  # narrow integer types overflow in the errors
     if reference_vec is None:
         reference_vec = slicer(output_vec, levels)
     elif len(reference_vec) != len(output_vec):
@@ -143,6 +144,7 @@ def soft_ddlms_grad(input_vec, output_vec, levels, sigma=1, ffe_tap_idx=np.array
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    output_vec = np.asarray(output_vec, dtype=float)  # narrow integer types overflow in the errors
     if reference_vec is None:
         reference_vec = slicer(output_vec, levels)
     p             = 1 / len(levels)
-- 
2.43.0


From c0d1d433591dc706825b1944a1155677c3a07b85 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:45:50 +0000
Subject: [PATCH 58/63] fix: equalizer output of signals, taps and memories
 held in narrow integer types

---
 CommDspy/rx/ffe_dfe_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 7a6eabf..0d1678d 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -52,6 +52,7 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # ==================================================================================================================
     if ffe_taps is None:
         ffe_taps = np.array([1])
+    input_signal = np.asarray(input_signal) * 1.0  # narrow integer types overflow in the products
     if len(ffe_taps) == 1 and dfe_taps is None:
         return input_signal * ffe_taps
     # ==================================================================================================================
@@ -64,7 +65,7 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         if zi_dfe is None:
             dfe_memory = np.zeros([len(dfe_taps)])
         elif len(zi_dfe) == len(dfe_taps):
-            dfe_memory = zi_dfe
+            dfe_memory = np.asarray(zi_dfe, dtype=float)
         else:
             raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {len(dfe_taps):d}')
     if zi_ffe is None:
-- 
2.43.0


From 846f707e22dbac105caadacc3dd1b8480afb334f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:09:45 +0000
Subject: [PATCH 59/63] fix: prbs_generator beyond 2^n-1 bits of a polynomial
 which is not maximal length

The bits of the first 2^n-1 steps were repeated although the delay line had not returned to its initial state.
---
 CommDspy/tx/prbs_generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CommDspy/tx/prbs_generator.py b/CommDspy/tx/prbs_generator.py
index e225c38..b28104e 100644
--- a/CommDspy/tx/prbs_generator.py
+++ b/CommDspy/tx/prbs_generator.py
@@ -26,6 +26,13 @@ def prbs_generator(poly_coeff, init_seed, output_length):
     for ii in range(loop_length):
         single_bin[ii] = np.mod(poly_coeff.dot(seed), 2)
         seed = np.concatenate(([single_bin[ii]], seed[:-1]))
+    if rep_number > 1 and not np.array_equal(seed, init_seed):
+        # The interval does not repeat itself, i.e. not a maximal length polynomial. Generating the rest of the bits
+        single_bin = np.concatenate((single_bin, np.zeros(output_length - loop_length, dtype=single_bin.dtype)))
+        rep_number = 1
+        for ii in range(loop_length, output_length):
+            single_bin[ii] = np.mod(poly_coeff.dot(seed), 2)
+            seed = np.concatenate(([single_bin[ii]], seed[:-1]))
     # ==================================================================================================================
     # Taking into consideration the repetitions
     # ==================================================================================================================
-- 
2.43.0


From da65385e79bbbb5c6e1fe54e863b795654c2a012 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:11:08 +0000
Subject: [PATCH 60/63] fix: awgn of a single sample returned NaN, and short
 signals got too much noise

The power estimate used the unbiased variance, which is undefined for one sample and not the mean power.
---
 CommDspy/channel/additive_noise_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/channel/additive_noise_functions.py b/CommDspy/channel/additive_noise_functions.py
index 2ce9319..96f3435 100644
--- a/CommDspy/channel/additive_noise_functions.py
+++ b/CommDspy/channel/additive_noise_functions.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.signal import lfilter
 from CommDspy.channel import pulse_shape
+from CommDspy.auxiliary import power
 
 
 def awgn(signal, snr):
@@ -19,7 +20,7 @@ def awgn(signal, snr):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    sig_power_hat = np.var(signal, ddof=1) + np.mean(signal) ** 2
+    sig_power_hat = np.real(power(signal))
     # ==================================================================================================================
     # Computing AWGN std to match the SNR
     # ==================================================================================================================
-- 
2.43.0


From 8c691751210c04e2fce177150e11ec64221328c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:30:16 +0000
Subject: [PATCH 61/63] fix: rrc_pulse without roll-off (beta = 0) divided by
 zero

---
 CommDspy/channel/pulse_shaping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index 573271f..1197f10 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -117,6 +117,8 @@ def rrc_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
+    if beta == 0:  # without roll-off the pulse is a sinc
+        return np.sinc(t)
     neq0 = ~np.isclose(t, np.zeros_like(t))
     neqb = ~np.isclose(np.abs(t) - 1/(4*beta), np.zeros_like(t))
     # ==================================================================================================================
-- 
2.43.0


From 8c954e7c84a78134fdda7036a67c2a25a100780d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:33:04 +0000
Subject: [PATCH 62/63] fix: soft_ddlms_grad returned NaN for outputs many
 sigmas away from all levels

---
 CommDspy/rx/least_mean_squares.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/least_mean_squares.py b/CommDspy/rx/least_mean_squares.py
index 475b074..9fe1c15 100644
--- a/CommDspy/rx/least_mean_squares.py
+++ b/CommDspy/rx/least_mean_squares.py
@@ -154,12 +154,15 @@ def soft_ddlms_grad(input_vec, output_vec, levels, sigma=1, ffe_tap_idx=np.array
     # temp = np.exp(-1 * (output_vec[None, :] - levels[:, None])**2 / (2 * sigma**2))
     # f    = p / np.sqrt(2 * np.pi * sigma**2) * np.sum(temp, axis=0)
     # e_n  = output_vec - np.sum(temp * levels[:, None], axis=0) / np.sum(temp, axis=0)
-    temp1 = np.exp(-1 * (output_vec[None, :] - levels[:, None])**2 / (2 * sigma**2))
+    # f and its derivative are scaled by exp(peak), the nearest level's exponent, since they underflow far from the levels
+    exponent = (output_vec[None, :] - levels[:, None])**2 / (2 * sigma**2)
+    peak     = np.min(exponent, axis=0)
+    temp1 = np.exp(peak - exponent)
     temp2 = (output_vec[None, :] - levels[:, None]) / (sigma**2) * temp1
     f     = p / np.sqrt(2 * np.pi * sigma**2) * np.sum(temp1, axis=0)
     e_n  = 1 / f * np.sum(temp2, axis=0)
 
-    loss = np.mean(-1 * np.mean(np.log(f)))
+    loss = np.mean(peak - np.log(f))
     # ==================================================================================================================
     # Computing the FFE + DFE derivatives
     # ==================================================================================================================
-- 
2.43.0


From 04a7df2093f4e3a5cc2d8b9b85e285eddedadb0f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:16:02 +0000
Subject: [PATCH 63/63] fix: a convergence started again is not done before its
 loops have stopped

---
 example_simulation/simulation_parts/full_link.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/example_simulation/simulation_parts/full_link.py b/example_simulation/simulation_parts/full_link.py
index a1f8bc2..30dc221 100644
--- a/example_simulation/simulation_parts/full_link.py
+++ b/example_simulation/simulation_parts/full_link.py
@@ -21,6 +21,7 @@ class FullLink:
 
     def start_convergence(self):
         self.Rx.converge     = True
+        self.Rx.converge_done = False
         self.Rx.converge_lms = True
         self.Rx.converge_cdr = True
         self.Rx.lms_mse_vec  = []
-- 
2.43.0

