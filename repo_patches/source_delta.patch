From 53186bb6485c4376d77dfef5ffefd050a1f465a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 01/35] fix: treat masked times and NaT as missing instead of
 as valid times

---
 utide/_time_conversion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 0550674..b31a0b4 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -20,7 +20,7 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
 
     Default `epoch` is the unix epoch 1970-01-01 00:00:00.
     """
-    date = np.asarray(date)
+    date = np.asanyarray(date)  # Keep the mask, if there is one.
 
     try:
         date = date.astype("datetime64[ms]")
@@ -37,7 +37,8 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
         ) from err
 
     # datenum calculation
-    datenum = (date - epoch).astype(float) / _MS_PER_DAY
+    # (dividing by a timedelta turns NaT into nan)
+    datenum = (date - epoch) / np.timedelta64(1, "ms") / _MS_PER_DAY
     return datenum
 
 
@@ -61,7 +62,7 @@ def _normalize_time(t, epoch=None):
     `t` input time or datenum array
     `epoch` either 'python', 'matlab', or np.datetime64 compatible value
     """
-    t = np.asarray(t)
+    t = np.asanyarray(t)  # Keep the mask, if there is one.
 
     if epoch is None:
         # default datetime, datetime64, or datetime array
-- 
2.43.0


From 5fe4bd4ff3d362aa9cf57e64bbcbe8882e733ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 02/35] fix: nodal corrections on the equator (lat=0 divided by
 zero)

---
 utide/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/harmonics.py b/utide/harmonics.py
index 33680d3..904b33e 100644
--- a/utide/harmonics.py
+++ b/utide/harmonics.py
@@ -119,7 +119,7 @@ def FUV(t, tref, lind, lat, ngflgs):
         astro, ader = ut_astron(tt)
 
         if abs(lat) < 5:
-            lat = np.sign(lat) * 5
+            lat = np.copysign(5, lat)
 
         slat = np.sin(np.deg2rad(lat))
         rr = sat.amprat.copy()
-- 
2.43.0


From d0fbc878765104590a16a45cbcbbe5d1ff37b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 03/35] fix: solve accepts array_like t, u, v as documented,
 not only arrays

---
 utide/_solve.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 1011d64..6990018 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -466,6 +466,12 @@ def _slvinit(tin, uin, vin, lat, **opts):
     if lat is None:
         raise ValueError("Latitude must be supplied")
 
+    # Accept any array_like; asanyarray preserves masks.
+    tin = np.asanyarray(tin)
+    uin = np.asanyarray(uin)
+    if vin is not None:
+        vin = np.asanyarray(vin)
+
     # Supporting only 1-D arrays for now; we can add "group"
     # support later.
     if tin.shape != uin.shape or tin.ndim != 1 or uin.ndim != 1:
-- 
2.43.0


From aea7dcb0d9b0386e500063a10ed1a33676e0c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 04/35] fix: accept ndarrays of names for constit and
 order_constit

---
 utide/_solve.py                | 2 +-
 utide/constituent_selection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 6990018..8db01ff 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -112,7 +112,7 @@ def validate_order_constit(arg, have_snr):
     if isinstance(arg, str) and arg in available:
         return arg
     if not isinstance(arg, str) and np.iterable(arg):
-        return arg  # TODO: add checking of its elements
+        return list(arg)  # TODO: add checking of its elements
     raise ValueError(
         f"order_constit must be one of {available} or"
         f" a sequence of constituents, not '{arg}'",
diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 451665c..3331318 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -42,7 +42,7 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
     cnstit["NR"] = Bunch()
 
     # if incnstit.lower() == 'auto':
-    if incnstit == "auto":
+    if isinstance(incnstit, str) and incnstit == "auto":
         cnstit.NR.lind = np.where(const.df >= minres)[0]
     else:
         cnstit.NR.lind = [constit_index_dict[n] for n in incnstit]
-- 
2.43.0


From 8c1e1cbc0922c397e508a4e0fa0585ffa0452bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 05/35] fix: infer may be a dict, is not modified, and missing
 keys are reported

---
 utide/_solve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 8db01ff..dae5740 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -89,9 +89,9 @@ def validate_infer(infer, is_2D):
     if infer is None or infer == "none":
         return None
     required_keys = {"inferred_names", "reference_names", "amp_ratios", "phase_offsets"}
-    keys = set(infer.keys())
-    if keys < required_keys:
-        raise ValueError(f"infer option must include {required_keys:s}")
+    infer = Bunch(infer)  # It may be a plain dict; and leave the caller's alone.
+    if not required_keys <= set(infer.keys()):
+        raise ValueError(f"infer option must include {sorted(required_keys)}")
     nI = len(infer.inferred_names)
     if len(infer.reference_names) != nI:
         raise ValueError("inferred_names must be same" "  length as reference_names")
-- 
2.43.0


From 38278213e6b82ea509a666c5be13bd91770c3fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 06/35] fix: robust weight functions andrews, huber, logistic
 work on arrays

---
 utide/robustfit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 8f19a20..a59d0ac 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -11,7 +11,7 @@ from utide.utilities import Bunch
 # Weighting functions:
 def andrews(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.spacing(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = (r < np.pi) * np.sin(r) / r
     return w
 
@@ -34,13 +34,13 @@ def fair(r):
 
 
 def huber(r):
-    w = 1 / max(1, np.abs(r))
+    w = 1 / np.maximum(1, np.abs(r))
     return w
 
 
 def logistic(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.single(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = np.tanh(r) / r
     return w
 
-- 
2.43.0


From 33e43bd7a70df2841c079d66e42e7290e4d0525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 07/35] fix: robustfit returns the weights and rms_resid of the
 solution it returns

---
 utide/robustfit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index a59d0ac..1240f5b 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -243,7 +243,9 @@ def robustfit(
 
     if iterations == 0:
         iterations = maxit  # Did not converge.
+        w = oldw  # The last update of the weights was not used.
 
+    resid = y - np.dot(X, b)
     rms_resid = np.sqrt(np.mean(np.abs(resid) ** 2))
 
     out.update(
-- 
2.43.0


From fbad4821857de826625e5f5398162abd22e9d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 08/35] fix: confidence intervals with inference used the wrong
 covariance elements

---
 utide/confidence.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 567f0cf..cd0609f 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -219,13 +219,16 @@ def _confidence(
     if not opt["white"]:
         varcov_mCc = np.copy(varcov_mCw)
 
+    # Columns of B for the positive and negative frequency of each constituent:
+    # NR+, NR-, R+, R-.
+    nR, nNR = coef.nR, coef.nNR
+    iplus = np.hstack((np.arange(nNR), 2 * nNR + np.arange(nR)))
+    iminus = iplus + np.hstack((nNR * np.ones(nNR, int), nR * np.ones(nR, int)))
+
     for c in range(nc):
-        G = np.array(
-            [[Gall[c, c], Gall[c, c + nc]], [Gall[c + nc, c], Gall[c + nc, c + nc]]],
-        )
-        H = np.array(
-            [[Hall[c, c], Hall[c, c + nc]], [Hall[c + nc, c], Hall[c + nc, c + nc]]],
-        )
+        ipm = np.ix_((iplus[c], iminus[c]), (iplus[c], iminus[c]))
+        G = Gall[ipm]
+        H = Hall[ipm]
         varXu = np.real(G[0, 0] + G[1, 1] + 2 * G[0, 1]) / 2
         varYu = np.real(H[0, 0] + H[1, 1] - 2 * H[0, 1]) / 2
 
-- 
2.43.0


From 401deece93bcd0ce775035aac63768e1305de802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 09/35] fix: 2-D linear colored confidence intervals ignored
 the spectrum of u

---
 utide/confidence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index cd0609f..243c840 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -250,6 +250,9 @@ def _confidence(
             else:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu, varXv, varYv]))
                 if not opt["white"]:
+                    den = varXu + varYu
+                    varXu = Puu[c] * varXu / den
+                    varYu = Puu[c] * varYu / den
                     den = varXv + varYv
                     varXv = Pvv[c] * varXv / den
                     varYv = Pvv[c] * varYv / den
-- 
2.43.0


From 9beb5b1a8dde19a5e19b789fc1c33e3b87f5e5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 10/35] fix: str() of an empty Bunch raised ValueError

---
 utide/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 0c83749..342df93 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -94,8 +94,8 @@ class Bunch(dict):
             klens.append(lenk)
             vlens.append(lenv)
 
-        klen = min(20, max(klens))
-        vlen = min(40, max(vlens))
+        klen = min(20, max(klens, default=0))
+        vlen = min(40, max(vlens, default=0))
         slist = [fmt.format(key, value, klen=klen, vlen=vlen) for key, value in items]
         return "".join(slist)
 
-- 
2.43.0


From 3ffc2e4c1cbd765b3e872cc28f72643375c92af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 11/35] fix: solve failed when every constituent is a reference
 or inferred

---
 utide/constituent_selection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 3331318..bb6b379 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -53,6 +53,7 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
         RI_index_set = {constit_index_dict[n] for n in RIset}
         cnstit.NR.lind = [ind for ind in cnstit.NR.lind if ind not in RI_index_set]
 
+    cnstit.NR.lind = np.array(cnstit.NR.lind, dtype=int)  # It may be empty.
     cnstit.NR.frq = freqs[cnstit.NR.lind]
     cnstit.NR.name = const.name[cnstit.NR.lind]
     nNR = len(cnstit.NR.frq)
-- 
2.43.0


From 2c773c5864022f2a1da3469bc99f73f58960e28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 12/35] fix: the default robust_kw is no longer shared with the
 returned coef

---
 utide/_solve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index dae5740..568eae8 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -2,6 +2,8 @@
 Central module for calculating the tidal amplitudes, phases, etc.
 """
 
+import copy
+
 import numpy as np
 
 from ._time_conversion import _normalize_time
@@ -32,7 +34,7 @@ default_opts = {
 
 
 def _process_opts(opts, is_2D):
-    newopts = Bunch(default_opts)
+    newopts = Bunch(copy.deepcopy(default_opts))
     newopts.update_values(strict=True, **opts)
     # TODO: add more validations.
     newopts.infer = validate_infer(newopts.infer, is_2D)
-- 
2.43.0


From e11f8fd9c21353f6fee88ea920a583939ae4c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 13/35] fix: approximate inference crashed and never corrected
 the reference constituents

---
 utide/_solve.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 568eae8..4b10d3d 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -279,18 +279,21 @@ def _solv1(tin, uin, vin, lat, **opts):
 
         else:
             # Approximate inference.
-            Q = np.empty((coef.nR,), dtype=float)
-            beta = np.empty((coef.nR,), dtype=float)
+            # Leakage of the inferred constituents into each reference.
+            leak_p = np.empty((coef.nR,), dtype=complex)
+            leak_m = np.empty((coef.nR,), dtype=complex)
 
             for k, ref in enumerate(cnstit.R):
                 E = ut_E(t, tref, ref.frq, ref.lind, *E_args)[:, 0]
                 Etilp[:, k] = E
                 Etilm[:, k] = E
-                num = ut_E(tref, tref, ref.I.frq, ref.I.lind, *E_args).real
-                den = ut_E(tref, tref, ref.frq, ref.lind, *E_args).real
-                Q[k] = (num / den)[0, 0]
+                num = ut_E(tref, tref, ref.I.frq, ref.I.lind, *E_args)
+                den = ut_E(tref, tref, ref.frq, ref.lind, *E_args)
+                Q = (num / den)[0]
                 arg = np.pi * lor * 24 * (ref.I.frq - ref.frq) * (nt + 1) / nt
-                beta[k] = np.sin(arg) / arg
+                beta = np.sin(arg) / arg
+                leak_p[k] = (beta * Q * ref.I.Rp).sum()
+                leak_m[k] = (beta * Q.conj() * ref.I.Rm).sum()
 
         B = np.hstack((B, Etilp, np.conj(Etilm)))
 
@@ -337,6 +340,10 @@ def _solv1(tin, uin, vin, lat, **opts):
     i0 = 2 * nNR + nR
     am = np.hstack((m[nNR : 2 * nNR], m[i0 : i0 + nR]))
 
+    if opt.infer is not None and opt.infer.approximate:
+        ap[nNR:] /= 1 + leak_p
+        am[nNR:] /= 1 + leak_m
+
     Xu = np.real(ap + am)
     Yu = -np.imag(ap - am)
 
-- 
2.43.0


From 348c1048f0791e67cf956817b57e2a9a7a358f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 14/35] fix: residual variance lost to cancellation gave nan
 confidence intervals

---
 utide/confidence.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 243c840..c1d1a67 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -178,8 +178,7 @@ def _confidence(
     if not opt["white"]:
         Puu, Pvv, Puv = band_averaged_psd_by_constit(tin, t, e, elor, coef, opt)  # noqa
 
-    # Make temporaries for quantities needed more than once.
-    _Wx = W * xraw
+    # Make a temporary for a quantity needed more than once.
     _WB = W[:, np.newaxis] * B
 
     # Matlab is recalculating xmod here; but we already have it.
@@ -190,16 +189,19 @@ def _confidence(
     nm = B.shape[1]
 
     # Mean Square Misfit: Eq. 52 (mean squared error).
-    varMSM = np.real(np.dot(xraw.conj(), _Wx) - np.dot(xmod.conj(), _Wx)) / (nt - nm)
+    # (The squares of the misfit are used; the difference of the squares of
+    # xraw and xmod suffers from cancellation, even to negative values.)
+    misfit = xraw - xmod
+    varMSM = np.real(np.dot(misfit.conj(), W * misfit)) / (nt - nm)
 
     # Gamma_C: covariance Eq. 54.
     gamC = np.linalg.inv(np.dot(B.conj().T, _WB)) * varMSM
 
     # Gamma_P: pseudo-covariance Eq. 54.
     gamP = np.linalg.inv(np.dot(B.T, _WB))
-    gamP *= (np.dot(xraw, _Wx) - np.dot(xmod, _Wx)) / (nt - nm)
+    gamP *= np.dot(misfit, W * misfit) / (nt - nm)
 
-    del _Wx, _WB
+    del _WB
 
     # Eq. 55; convenient intermediate variables; see Eq. 51.
     Gall = gamC + gamP
-- 
2.43.0


From ffe0658f3138b3263dc1f055e32e53fb43906bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 15/35] fix: MC confidence intervals crashed where a band has
 no spectral estimate

---
 utide/confidence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index c1d1a67..5063403 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -273,6 +273,11 @@ def _confidence(
                 coef["g_ci"][c] = 1.96 * np.real(sig2)
                 coef["theta_ci"][c] = 1.96 * np.imag(sig2)
 
+        elif not opt.white and np.isnan(Puu[c]):
+            # No spectral estimate in this band, so as in the linearized case
+            # the intervals are left as nan.
+            continue
+
         else:  # Monte Carlo.
             covXuYu = np.imag(H[0, 0] - H[0, 1] + H[1, 0] - H[1, 1]) / 2
             Duu = np.array([[varXu, covXuYu], [covXuYu, varYu]])
-- 
2.43.0


From 68a876b3de99889a023c0f5509037bf451266db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 16/35] fix: MC theta_ci and g_ci blew up for an ellipse
 oriented near 0 or 180

---
 utide/confidence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 5063403..d342e9e 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -355,7 +355,11 @@ def _confidence(
                     1.96 * np.median(np.abs(Lsmin - np.median(Lsmin))) / 0.6745
                 )  # noqa
                 theta[0] = coef.theta[c]
-                theta = cluster(theta, 360)
+                # An axis is the same when turned by 180 degrees; the phase then
+                # changes by 180 degrees, too.
+                g -= theta
+                theta = cluster(theta, 180)
+                g += theta
                 coef.theta_ci[c] = (
                     1.96 * np.median(np.abs(theta - np.median(theta))) / 0.6745
                 )  # noqa
-- 
2.43.0


From 5c1960a0060293de9d024637616b225a5af77fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 17/35] fix: compute in double precision when times or data
 have lower precision

---
 utide/_solve.py           | 2 ++
 utide/_time_conversion.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 4b10d3d..75d0e83 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -478,8 +478,10 @@ def _slvinit(tin, uin, vin, lat, **opts):
     # Accept any array_like; asanyarray preserves masks.
     tin = np.asanyarray(tin)
     uin = np.asanyarray(uin)
+    uin = uin.astype(np.result_type(uin, float), copy=False)
     if vin is not None:
         vin = np.asanyarray(vin)
+        vin = vin.astype(np.result_type(vin, float), copy=False)
 
     # Supporting only 1-D arrays for now; we can add "group"
     # support later.
diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index b31a0b4..0561453 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -69,6 +69,8 @@ def _normalize_time(t, epoch=None):
         return _python_gregorian_datenum(t)
 
     if t.dtype.kind in ("if"):
+        # The astronomical arguments need double precision.
+        t = t.astype(float, copy=False)
         if epoch == "python":
             return t
         elif epoch == "matlab":
-- 
2.43.0


From dc22e62af0773415e83b97722812271d2773ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 18/35] fix: accept pandas Series of names or ratios in
 reconstruct and infer

---
 utide/_reconstruct.py | 2 ++
 utide/_solve.py       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/utide/_reconstruct.py b/utide/_reconstruct.py
index 67974c5..8290785 100644
--- a/utide/_reconstruct.py
+++ b/utide/_reconstruct.py
@@ -95,6 +95,8 @@ def _reconstruct(t, goodmask, coef, verbose, constit, min_SNR, min_PE):
 
     # Determine constituents to include.
     if constit is not None:
+        if not isinstance(constit, str):
+            constit = list(constit)  # A pandas Series would look in its index.
         ind = [i for i, c in enumerate(coef["name"]) if c in constit]
     elif (min_SNR == 0 and min_PE == 0) or coef["aux"]["opt"]["nodiagn"]:
         ind = slice(None)
diff --git a/utide/_solve.py b/utide/_solve.py
index 75d0e83..3c2a496 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -94,6 +94,8 @@ def validate_infer(infer, is_2D):
     infer = Bunch(infer)  # It may be a plain dict; and leave the caller's alone.
     if not required_keys <= set(infer.keys()):
         raise ValueError(f"infer option must include {sorted(required_keys)}")
+    for key in required_keys:
+        infer[key] = list(infer[key])  # Any kind of sequence.
     nI = len(infer.inferred_names)
     if len(infer.reference_names) != nI:
         raise ValueError("inferred_names must be same" "  length as reference_names")
-- 
2.43.0


From 5fa2278cf8607386d0855227ef181ce9500f8b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 19/35] fix: a name repeated in constit made the model singular

---
 utide/_solve.py                | 2 +-
 utide/constituent_selection.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 3c2a496..3fefce2 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -116,7 +116,7 @@ def validate_order_constit(arg, have_snr):
     if isinstance(arg, str) and arg in available:
         return arg
     if not isinstance(arg, str) and np.iterable(arg):
-        return list(arg)  # TODO: add checking of its elements
+        return list(dict.fromkeys(arg))  # TODO: add checking of its elements
     raise ValueError(
         f"order_constit must be one of {available} or"
         f" a sequence of constituents, not '{arg}'",
diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index bb6b379..a0efbed 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -45,7 +45,8 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
     if isinstance(incnstit, str) and incnstit == "auto":
         cnstit.NR.lind = np.where(const.df >= minres)[0]
     else:
-        cnstit.NR.lind = [constit_index_dict[n] for n in incnstit]
+        # A repeated name would make the model singular.
+        cnstit.NR.lind = [constit_index_dict[n] for n in dict.fromkeys(incnstit)]
 
     # Remove from NR any R and I constituents.
     if infer is not None:
-- 
2.43.0


From f495cda24769e430732cc272724b808a4af73271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 20/35] fix: angles of tiny negative size were reported as 180
 or 360 degrees

---
 utide/ellipse_params.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utide/ellipse_params.py b/utide/ellipse_params.py
index 9d427b9..fed674f 100644
--- a/utide/ellipse_params.py
+++ b/utide/ellipse_params.py
@@ -8,6 +8,14 @@ module.
 import numpy as np
 
 
+def _wrap(angle, period):
+    """
+    Angle in [0, period); the remainder of a tiny negative one rounds to period.
+    """
+    angle = angle % period
+    return angle * (angle != period)
+
+
 def ut_cs2cep(Xu, Yu=None, Xv=None, Yv=None):
     """
     Compute ellipse parameters from cosine and sine coefficients.
@@ -57,7 +65,7 @@ def ut_cs2cep(Xu, Yu=None, Xv=None, Yv=None):
         Lsmaj = np.abs(ap)
         Lsmin = np.zeros_like(Xu)
         theta = np.zeros_like(Xu)
-        g = -np.angle(ap, deg=True) % 360
+        g = _wrap(-np.angle(ap, deg=True), 360)
         return Lsmaj, Lsmin, theta, g
 
     # 2-D case
@@ -70,7 +78,7 @@ def ut_cs2cep(Xu, Yu=None, Xv=None, Yv=None):
     epsp = np.angle(ap, deg=True)
     epsm = np.angle(am, deg=True)
 
-    theta = ((epsp + epsm) / 2) % 180
-    g = (-epsp + theta) % 360
+    theta = _wrap((epsp + epsm) / 2, 180)
+    g = _wrap(-epsp + theta, 360)
 
     return Lsmaj, Lsmin, theta, g
-- 
2.43.0


From 9fdbe7c30730d6f8d786e8cc3d673277f38e6d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 21/35] fix: an exactly fitted velocity component gave nan or
 failing confidence intervals

Rounding made its variances negative, or 0/0 when apportioning the spectral
power; with the default min_SNR reconstruct then left constituents out.
---
 utide/confidence.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index d342e9e..3808072 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -145,6 +145,18 @@ def nearestSPD(A):
     return Ahat
 
 
+def _apportion(power, var):
+    """
+    Scale the variances (or covariance matrix) `var` to the total `power`.
+
+    If they vanish, because a component is fitted exactly, share it equally.
+    """
+    total = np.trace(var) if np.ndim(var) == 2 else np.sum(var)
+    if total > 0:
+        return power * var / total
+    return power * (np.eye(2) if np.ndim(var) == 2 else np.ones(2)) / 2
+
+
 def _confidence(
     coef,
     cnstit,
@@ -233,18 +245,19 @@ def _confidence(
         H = Hall[ipm]
         varXu = np.real(G[0, 0] + G[1, 1] + 2 * G[0, 1]) / 2
         varYu = np.real(H[0, 0] + H[1, 1] - 2 * H[0, 1]) / 2
+        # Rounding may turn vanishing variances negative.
+        varXu, varYu = max(varXu, 0.0), max(varYu, 0.0)
 
         if opt["twodim"]:
             varXv = np.real(H[0, 0] + H[1, 1] + 2 * H[0, 1]) / 2
             varYv = np.real(G[0, 0] + G[1, 1] - 2 * G[0, 1]) / 2
+            varXv, varYv = max(varXv, 0.0), max(varYv, 0.0)
 
         if opt["linci"]:  # Linearized.
             if not opt["twodim"]:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu]))
                 if not opt["white"]:
-                    den = varXu + varYu
-                    varXu = Puu[c] * varXu / den
-                    varYu = Puu[c] * varYu / den
+                    varXu, varYu = _apportion(Puu[c], np.array([varXu, varYu]))
                     varcov_mCc[c, :, :] = np.diag(np.array([varXu, varYu]))
                 sig1, sig2 = ut_linci(Xu[c], Yu[c], np.sqrt(varXu), np.sqrt(varYu))
                 coef["A_ci"][c] = 1.96 * sig1
@@ -252,12 +265,8 @@ def _confidence(
             else:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu, varXv, varYv]))
                 if not opt["white"]:
-                    den = varXu + varYu
-                    varXu = Puu[c] * varXu / den
-                    varYu = Puu[c] * varYu / den
-                    den = varXv + varYv
-                    varXv = Pvv[c] * varXv / den
-                    varYv = Pvv[c] * varYv / den
+                    varXu, varYu = _apportion(Puu[c], np.array([varXu, varYu]))
+                    varXv, varYv = _apportion(Pvv[c], np.array([varXv, varYv]))
                     varcov_mCc[c, :, :] = np.diag(
                         np.array([varXu, varYu, varXv, varYv]),
                     )
@@ -284,7 +293,7 @@ def _confidence(
             varcov_mCw[c, :2, :2] = Duu
 
             if not opt.white:
-                Duu = Puu[c] * Duu / np.trace(Duu)
+                Duu = _apportion(Puu[c], Duu)
                 varcov_mCc[c, :2, :2] = Duu
 
             if not opt.twodim:
@@ -316,7 +325,7 @@ def _confidence(
                 varcov_mCw[c, 2:, 2:] = Dvv
 
                 if not opt.white:
-                    Dvv = Pvv[c] * Dvv / np.trace(Dvv)
+                    Dvv = _apportion(Pvv[c], Dvv)
                     varcov_mCc[c, 2:, 2:] = Dvv
                 covXuXv = np.imag(-H[0, 0] - H[0, 1] - H[1, 0] - H[1, 1]) / 2
                 covXuYv = np.real(G[0, 0] - G[1, 1]) / 2
-- 
2.43.0


From 0d0187134fafbcd3c988cba63b0350eee9bbf485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 22/35] fix: misspelled method, phase or nodal options silently
 selected something else

method='OLS', for example, was a robust fit.
---
 utide/_solve.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 3fefce2..ed67c1a 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -65,6 +65,13 @@ def _translate_opts(opts):
     else:
         raise ValueError("'conf_int' must be 'linear', 'MC', or 'none'")
 
+    if opts.method not in ("ols", "robust"):
+        raise ValueError("'method' must be 'ols' or 'robust'")
+    if opts.phase not in ("Greenwich", "linear_time", "raw"):
+        raise ValueError("'phase' must be 'Greenwich', 'linear_time', or 'raw'")
+    if isinstance(opts.nodal, str) and opts.nodal != "linear_time":
+        raise ValueError("'nodal' must be True, False, or 'linear_time'")
+
     oldopts.notrend = not opts.trend
     oldopts["nodesatlint"] = False
     oldopts["nodesatnone"] = False
-- 
2.43.0


From 5f05c1c5cc099e2f4e3ad6abb854ef2ce74841bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 23/35] fix: contradictory infer specifications were accepted

A name inferred twice, or both inferred and a reference, was counted twice.
---
 utide/_solve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index ed67c1a..ee14c6d 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -106,6 +106,10 @@ def validate_infer(infer, is_2D):
     nI = len(infer.inferred_names)
     if len(infer.reference_names) != nI:
         raise ValueError("inferred_names must be same" "  length as reference_names")
+    if len(set(infer.inferred_names)) != nI:
+        raise ValueError("inferred_names must not contain a name twice")
+    if set(infer.inferred_names) & set(infer.reference_names):
+        raise ValueError("a constituent cannot be both inferred and a reference")
     nratios = 2 * nI if is_2D else nI
     if len(infer.amp_ratios) != nratios or len(infer.phase_offsets) != nratios:
         raise ValueError(f"ratios and offsets need to have length {nratios:d}")
-- 
2.43.0


From 702556793344b271e2c0d702efa9346b47a24bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 24/35] fix: a Bunch without t_mpl raised KeyError for the
 attribute, even in hasattr

---
 utide/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utide/utilities.py b/utide/utilities.py
index 342df93..2832c09 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -169,6 +169,8 @@ class Bunch(dict):
 
     @property
     def t_mpl(self):
+        if "t_mpl" not in self:
+            raise AttributeError("'Bunch' object has no attribute 't_mpl'")
         warnings.warn(
             "t_mpl is being depreciated. Please directly input a time array and use variable t_in for plots.",
             category=FutureWarning,
-- 
2.43.0


From b3767a9b2660c0c442d90d2e5dda2b28f0645332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 25/35] fix: treat unsigned integer times like other numeric
 times

---
 utide/_time_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 0561453..4835856 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -68,7 +68,7 @@ def _normalize_time(t, epoch=None):
         # default datetime, datetime64, or datetime array
         return _python_gregorian_datenum(t)
 
-    if t.dtype.kind in ("if"):
+    if t.dtype.kind in "iuf":
         # The astronomical arguments need double precision.
         t = t.astype(float, copy=False)
         if epoch == "python":
-- 
2.43.0


From 2b432765c0691bdf42d8a4e248fbce8effbd3bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 26/35] fix: list an empty Bunch or data file without failing

---
 utide/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 2832c09..bb938d6 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -274,7 +274,7 @@ def showmatbunch(b):
         b = loadbunch(b)
     elist = _showmatbunch(b)
     names = [n for n, v in elist]
-    namelen = min(40, max(len(n) for n in names))
+    namelen = min(40, max((len(n) for n in names), default=0))
     str_fmt = "{0!s:<{namelen}} : {1!s}\n"
     strlist = [str_fmt.format(n[1:], v, namelen=namelen) for (n, v) in elist]
     return "".join(strlist)
-- 
2.43.0


From 127eb354c2e3a2a5ac66ec3836a76bfc6db2142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 27/35] fix: nearestSPD: account for rounding errors relative
 to the original matrix

---
 utide/confidence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 3808072..be48356 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -133,7 +133,8 @@ def nearestSPD(A):
         # is still a very small adjustment, but much larger than
         # his.
         # Eigvals are or can be complex dtype, so take abs().
-        maxeig = np.abs(np.linalg.eigvals(Ahat)).max()
+        # The rounding errors of Ahat are relative to A, not to Ahat.
+        maxeig = max(np.abs(np.linalg.eigvals(Ahat)).max(), S.max())
         Ahat[np.diag_indices(n)] += np.spacing(maxeig)
         # Normally no more than one adjustment will be needed.
         if k > 100:
-- 
2.43.0


From 98b3fa6d0b26b36ef0c87d888170186f980b5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 28/35] fix: robust fit of a record with mostly vanishing
 residuals

---
 utide/robustfit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 1240f5b..e20a062 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -116,7 +116,9 @@ def r_normed(R, rfac):
     """
     Normalized residuals from raw residuals and a multiplicative factor.
     """
-    return rfac * R / sigma_hat(R)
+    # Half of the residuals or more may vanish.
+    sigma = max(sigma_hat(R), np.finfo(float).eps * np.abs(R).max()) or 1
+    return rfac * R / sigma
 
 
 def robustfit(
-- 
2.43.0


From ead2e216f57651ca2f62eaa32e44c6c43fa575cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 29/35] fix: scale of complex residuals does not depend on the
 orientation of the axes

---
 utide/robustfit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index e20a062..22743ff 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -91,7 +91,10 @@ def sigma_hat(x):
     Robust estimate of standard deviation based on medians.
     """
     # The center could be based on the mean or some other function.
-    return np.median(np.abs(x - np.median(x))) / 0.6745
+    # Complex numbers have no median (sorting them depends on the orientation
+    # of the axes), but the residuals of a model with a mean are centered.
+    center = 0 if np.iscomplexobj(x) else np.median(x)
+    return np.median(np.abs(x - center)) / 0.6745
 
 
 def leverage(x):
-- 
2.43.0


From e2cae34c63d4547aaa28360fa076fddcb69d7ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 30/35] fix: robustfit raised a NameError for a model given as
 a single column

---
 utide/robustfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 22743ff..12c1dad 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -177,7 +177,7 @@ def robustfit(
     _wfunc = wfuncdict[weight_function]
 
     if X.ndim == 1:
-        X = X.reshape((x.size, 1))
+        X = X.reshape((X.size, 1))
     n, p = X.shape
 
     lev = leverage(X)
-- 
2.43.0


From 33465b072c534f77c3ece4f760c150c718c9956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 31/35] fix: ut_linci left out the errors of the minor axis and
 orientation for complex X with no imaginary part

---
 utide/confidence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index be48356..51131b8 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -492,7 +492,7 @@ def ut_linci(X, Y, sigX, sigY):
     )
 
     # if ~isreal(X)
-    if not np.isreal(X):
+    if np.iscomplexobj(X):
         # Minor axis.
         dXu2 = (0.25 * (ex - fx)) ** 2
         dYu2 = (0.25 * (gx - hx)) ** 2
-- 
2.43.0


From ae5f217f8a39c459428f75c637aa4a03dff79e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 32/35] fix: sign of the co-spectrum counts once in colored
 Monte-Carlo intervals

---
 utide/confidence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 51131b8..30905b5 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -338,7 +338,9 @@ def _confidence(
 
                 if not opt.white:
                     if np.abs(Duv).sum() > 0:
-                        Duv = Puv[c] * Duv / np.abs(Duv).sum()
+                        # The sign is that of the co-spectrum alone.
+                        Duv = Duv * np.sign(np.trace(Duv)) / np.abs(Duv).sum()
+                        Duv = Puv[c] * Duv
                         varcov_mCc[c, :2, 2:] = Duv
                         varcov_mCc[c, 2:, :2] = Duv.T
                     else:
-- 
2.43.0


From ba1bb78e01fdb7abe1f7503fd0adcab856596b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 33/35] fix: intervals of inferred constituents follow from
 those of their references

---
 utide/confidence.py | 51 ++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 30905b5..2a60d7d 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -158,6 +158,14 @@ def _apportion(power, var):
     return power * (np.eye(2) if np.ndim(var) == 2 else np.ones(2)) / 2
 
 
+def _var_of_product(c, var):
+    """
+    Variances of the parts of c * z, from those of the parts of z (as complex numbers).
+    """
+    re2, im2 = c.real**2, c.imag**2
+    return re2 * var + im2 * (np.imag(var) + 1j * np.real(var))
+
+
 def _confidence(
     coef,
     cnstit,
@@ -388,35 +396,36 @@ def _confidence(
         if opt.linci:
             for k, ref in enumerate(cnstit.R):
                 varcov = varcov_mCw if opt.white else varcov_mCc
-                varReap = 0.25 * varcov[nNR + k, 0, 0]
-                varImap = 0.25 * varcov[nNR + k, 1, 1]
+                # Coefficients of u and v, and their variances, as complex numbers.
+                X, Y, varX, varY = Xu[nNR + k], Yu[nNR + k], *np.diag(varcov[nNR + k])[:2]
                 if opt.twodim:
-                    varReap += 0.25 * varcov[nNR + k, 3, 3]
-                    varImap += 0.25 * varcov[nNR + k, 2, 2]
-                rp = ref.I.Rp
-                rm = ref.I.Rm
-                varXuHH = (rp.real**2 + rm.real**2) * varReap + (
-                    rp.imag**2 + rm.imag**2
-                ) * varImap
-                varYuHH = (rp.real**2 + rm.real**2) * varImap + (
-                    rp.imag**2 + rm.imag**2
-                ) * varReap
-                for varX, varY in zip(varXuHH, varYuHH, strict=False):
+                    X, Y = X + 1j * Xv[nNR + k], Y + 1j * Yv[nNR + k]
+                    varXv, varYv = np.diag(varcov[nNR + k])[2:]
+                    varX, varY = varX + 1j * varXv, varY + 1j * varYv
+                # Those of the inferred constituents are XI = P X - Q Y, YI = Q X + P Y.
+                for P, Q in zip(
+                    (ref.I.Rp + ref.I.Rm) / 2,
+                    (ref.I.Rp - ref.I.Rm) * 0.5j,
+                    strict=True,
+                ):
+                    XI, YI = P * X - Q * Y, Q * X + P * Y
+                    varXI = _var_of_product(P, varX) + _var_of_product(Q, varY)
+                    varYI = _var_of_product(Q, varX) + _var_of_product(P, varY)
                     if not opt.twodim:
                         sig1, sig2 = ut_linci(
-                            Xu[nNR + k],
-                            Yu[nNR + k],
-                            np.sqrt(varX),
-                            np.sqrt(varY),
+                            XI.real,
+                            YI.real,
+                            np.sqrt(varXI.real),
+                            np.sqrt(varYI.real),
                         )
                         coef.A_ci[ind] = 1.96 * sig1
                         coef.g_ci[ind] = 1.96 * sig2
                     else:
                         sig1, sig2 = ut_linci(
-                            Xu[nNR + k] + 1j * Xv[nNR + k],
-                            Yu[nNR + k] + 1j * Yv[nNR + k],
-                            np.sqrt(varX) + 1j * np.sqrt(varY),
-                            np.sqrt(varY) + 1j * np.sqrt(varX),
+                            XI,
+                            YI,
+                            np.sqrt(varXI.real) + 1j * np.sqrt(varXI.imag),
+                            np.sqrt(varYI.real) + 1j * np.sqrt(varYI.imag),
                         )
                         coef.Lsmaj_ci[ind] = 1.96 * sig1.real
                         coef.Lsmin_ci[ind] = 1.96 * sig1.imag
-- 
2.43.0


From 69b76d179ffe90ecd3d658865c65ce28506ea671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 34/35] fix: results of solve depended on the order of the
 samples

---
 utide/_solve.py     | 7 ++++---
 utide/confidence.py | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index ee14c6d..099a6fd 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -543,19 +543,20 @@ def _slvinit(tin, uin, vin, lat, **opts):
     # but don't necessarily have masked values.
 
     # Are the times equally spaced?
+    # (The samples may be in any order.)
     eps = np.finfo(np.float64).eps
-    if np.var(np.unique(np.diff(tin))) < eps:
+    if np.var(np.unique(np.diff(np.sort(tin)))) < eps:
         opt["equi"] = True  # based on times; u/v can still have nans ("gappy")
         lor = np.ptp(tin)
         ntgood = len(tin)
         elor = lor * ntgood / (ntgood - 1)
-        tref = 0.5 * (tin[0] + tin[-1])
+        tref = 0.5 * (tin.min() + tin.max())
     else:
         opt["equi"] = False
         lor = np.ptp(t)
         nt = len(t)
         elor = lor * nt / (nt - 1)
-        tref = 0.5 * (t[0] + t[-1])
+        tref = 0.5 * (t.min() + t.max())
 
     # Options.
     opt["conf_int"] = True
diff --git a/utide/confidence.py b/utide/confidence.py
index 2a60d7d..593bcc8 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -18,6 +18,10 @@ from utide.utilities import complex_interp
 def band_averaged_psd_by_constit(tin, t, e, elor, coef, opt):
     # Band-averaged (ba) spectral densities at each constituent freq.
     constits = coef.aux.frq
+    # The spectra are estimated from a series in the order of time.
+    tin = np.sort(tin)
+    order = np.argsort(t, kind="stable")
+    t, e = t[order], e[order]
     if opt.equi:
         e_ = e
         if len(tin) > len(t):
-- 
2.43.0


From 9c39654f696c246f06bcf97755b0faa210788574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 35/35] fix: robustfit failed or was biased if outliers on one
 side shifted all residuals

---
 utide/robustfit.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 12c1dad..1c561ae 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -90,11 +90,9 @@ def sigma_hat(x):
     """
     Robust estimate of standard deviation based on medians.
     """
-    # The center could be based on the mean or some other function.
-    # Complex numbers have no median (sorting them depends on the orientation
-    # of the axes), but the residuals of a model with a mean are centered.
-    center = 0 if np.iscomplexobj(x) else np.median(x)
-    return np.median(np.abs(x - center)) / 0.6745
+    # Residuals are deviations already.  Their median must not be taken off: they
+    # are weighted by their size, and outliers on one side shift them all.
+    return np.median(np.abs(x)) / 0.6745
 
 
 def leverage(x):
-- 
2.43.0

