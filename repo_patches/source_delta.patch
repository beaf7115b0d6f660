From e88a20d05b5ef8df79740b177ceb5bee75968203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 01/48] fix: tpnorm maps the south pole (theta=pi) to the north
 pole and edits its argument

---
 raytools/translate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 4acecee..dca018e 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -231,8 +231,10 @@ def xyz2xy(xyz, axes=(0, 1, 2), flip=False):
 
 def tpnorm(thetaphi):
     """normalize angular vector to 0-pi, 0-2pi"""
-    thetaphi = np.atleast_2d(thetaphi)
-    thetaphi[:, 0] = np.mod(thetaphi[:, 0] + np.pi, np.pi)
+    thetaphi = np.array(thetaphi, dtype=float, ndmin=2)
+    # theta range includes both end points (0 and pi are opposite poles)
+    out = np.logical_or(thetaphi[:, 0] < 0, thetaphi[:, 0] > np.pi)
+    thetaphi[out, 0] = np.mod(thetaphi[out, 0] + np.pi, np.pi)
     thetaphi[:, 1] = np.mod(thetaphi[:, 1] + 2*np.pi, 2*np.pi)
     return thetaphi
 
-- 
2.43.0


From 54279a8342182157baf687d852f39a3134a75716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 02/48] fix: vxy2xyz overwrites the pixel/view coordinates
 passed by the caller

---
 raytools/mapper/angularmixin.py | 3 +--
 raytools/mapper/mapper.py       | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index de6c559..2cd86f8 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -68,8 +68,7 @@ class AngularMixin(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
-        pxy = np.atleast_2d(xy)
-        pxy -= .5
+        pxy = np.atleast_2d(xy) - .5
         pxy *= (np.array([self._xsign, 1]) *
                 (self.viewangle * self._chordfactor) / 180)
         d = np.sqrt(np.sum(np.square(pxy), -1))
diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index fecf9e0..e3c5f23 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -132,6 +132,7 @@ class Mapper(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
+        xy = np.array(xy, dtype=float)
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
-- 
2.43.0


From 34f6f09fa6d4103682a1b0957d0fbad848b4db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 03/48] fix: uv2xy and uv2xyz permanently switch off numpy
 floating point warnings

---
 raytools/translate.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index dca018e..0e042d8 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -37,7 +37,6 @@ def uv2xy(uv):
     -map.html.
     """
     uv = np.atleast_2d(uv)
-    np.seterr(all="ignore")
     xy = np.empty((uv.shape[0], 2), float)
     u = uv[:, 0]
     v = uv[:, 1]
@@ -47,7 +46,9 @@ def uv2xy(uv):
     b = 2. * v - 1
     cond = a*a > b*b
     r = np.where(cond, a, np.where(b == 0, 0, b))
-    phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
+    with np.errstate(all="ignore"):
+        phi = np.where(cond, b/(2*a),
+                       np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
     xy[:, 0] = n*np.cos(phi)*r
     xy[:, 1] = np.sin(phi)*r
     return xy
@@ -58,7 +59,6 @@ def uv2xyz(uv, axes=(0, 1, 2), xsign=1):
     http://psgraphics.blogspot.com/2011/01/improved-code-for-concentric
     -map.html.
     """
-    np.seterr(all="ignore")
     uv = np.atleast_2d(uv)
     xyz = np.empty((uv.shape[0], 3), float)
     u = uv[:, 0]
@@ -71,7 +71,9 @@ def uv2xyz(uv, axes=(0, 1, 2), xsign=1):
     b = 2. * v - 1
     cond = a*a > b*b
     r = np.where(cond, a, np.where(b == 0, 0, b))
-    phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
+    with np.errstate(all="ignore"):
+        phi = np.where(cond, b/(2*a),
+                       np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
     sphterm = r*np.sqrt(2 - r*r)
     # flip back x in positive z space
     xyz[:, axes[0]] = xsign*n*np.cos(phi)*sphterm
-- 
2.43.0


From 4b478a76a38e04ebfc7b3850d2bc896d0c8a5b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 04/48] fix: header lines with quotes are split, altered or
 raise when writing an image

---
 raytools/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index e5f3292..725f108 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -144,8 +144,7 @@ def _array2hdr(ar, imgf, header, pval, clean=False):
     if header is not None:
         if clean:
             header = clean_header(header)
-        hdr = "' '".join(header)
-        getinfo = shlex.split(f"getinfo -a '{hdr}'")
+        getinfo = ["getinfo", "-a", *(header or [""])]
         p = Popen(pval.split(), stdin=PIPE, stdout=PIPE)
         q = Popen(getinfo, stdin=p.stdout, stdout=f)
     else:
-- 
2.43.0


From a6cad7dabfca2b6b809f2306c4d8b158b9faf780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 05/48] fix: is_hdr fails on binary data and never recognizes
 an image

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 725f108..35c1fa0 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -295,7 +295,7 @@ def clean_header(header):
 
 
 def is_hdr(imgf):
-    f = open(imgf)
+    f = open(imgf, 'rb')
     ishdr = f.read(10) == b'#?RADIANCE'
     f.close()
     return ishdr
-- 
2.43.0


From a1c5abdb92d748f1c2f71c2878503bb2feb7d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 06/48] fix: images in paths with spaces or quotes cannot be
 read

---
 raytools/imagetools.py |  6 ++++--
 raytools/io.py         | 16 ++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 65afb52..f3150e3 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -8,6 +8,8 @@
 # =======================================================================
 
 """functions for translating from mappers to hdr"""
+import shlex
+
 import numpy as np
 import clasp.script_tools as cst
 
@@ -219,7 +221,7 @@ def vf_to_vm(view):
 
 
 def img_size(imgf):
-    hd = cst.pipeline([f"getinfo -d {imgf}"]).strip().split()
+    hd = cst.pipeline([f"getinfo -d {shlex.quote(str(imgf))}"]).strip().split()
     x = 1
     y = 1
     for i in range(2, len(hd)):
@@ -232,7 +234,7 @@ def img_size(imgf):
 
 def hdr2vm(imgf, vpt=False):
     """hdr to ViewMapper"""
-    header, err = cst.pipeline([f"getinfo {imgf}"], caperr=True)
+    header, err = cst.pipeline([f"getinfo {shlex.quote(str(imgf))}"], caperr=True)
     try:
         err = err.decode("utf-8")
     except AttributeError:
diff --git a/raytools/io.py b/raytools/io.py
index 35c1fa0..44674a1 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -9,7 +9,6 @@
 
 """functions for reading and writing"""
 import re
-import shlex
 import os
 import sys
 import textwrap
@@ -203,7 +202,10 @@ def carray2hdr(ar, imgf, header=None, clean=False):
 
 
 def _hdr_in(pval, imgf, stdin):
-    p = Popen(shlex.split(pval), stdin=stdin, stdout=PIPE, stderr=PIPE)
+    # with no file name, pvalue reads from stdin
+    if imgf != "":
+        pval = pval + [str(imgf)]
+    p = Popen(pval, stdin=stdin, stdout=PIPE, stderr=PIPE)
     shape = p.stdout.readline().strip().split()
     try:
         shape = (int(shape[-3]), int(shape[-1]))
@@ -237,7 +239,7 @@ def hdr2array(imgf, stdin=None, header=False, vlambda=None):
         imgd = hdr2carray(imgf, stdin)
         imgd = np.einsum("ijk,i->jk", imgd, vlambda)
     else:
-        pval = f'pvalue -b -h -df -o {imgf}'
+        pval = ['pvalue', '-b', '-h', '-df', '-o']
         imgd = bytes2np(*_hdr_in(pval, imgf, stdin)).T[:, ::-1]
     if header:
         return imgd, hdr_header(imgf)
@@ -257,7 +259,7 @@ def hdr2carray(imgf, stdin=None, header=False):
     -------
     ar: np.array
     """
-    pval = f'pvalue -n -h -df -o {imgf}'
+    pval = ['pvalue', '-n', '-h', '-df', '-o']
     data, shape = _hdr_in(pval, imgf, stdin)
     shape = (3, *shape)
     imgd = np.transpose(bytes2np(data, shape)[:, ::-1], (0, 2, 1))
@@ -302,8 +304,10 @@ def is_hdr(imgf):
 
 
 def hdr_header(imgf, clean=False, items=None):
-    p = Popen(shlex.split(f"getinfo {imgf}"), stdout=PIPE,
-              stderr=PIPE).communicate()
+    getinfo = ["getinfo"]
+    if imgf != "":
+        getinfo.append(str(imgf))
+    p = Popen(getinfo, stdout=PIPE, stderr=PIPE).communicate()
     err = p[1]
     try:
         err = err.decode("utf-8")
-- 
2.43.0


From bda628d0ead80dd89a539189dbacc1d845b5a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 07/48] fix: only the #?RADIANCE magic line is dropped from
 headers, not any line naming RADIANCE

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 44674a1..5347eaf 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -321,7 +321,7 @@ def hdr_header(imgf, clean=False, items=None):
         raise IOError(f"{err} - wrong file type?")
     if "cannot open" in header:
         raise FileNotFoundError(f"{imgf} not found")
-    header = [i for i in header.strip().splitlines() if not re.match(r".*#?RADIANCE.*", i)]
+    header = [i for i in header.strip().splitlines() if not re.match(r".*#\?RADIANCE.*", i)]
     if items is not None:
         header = header_items(header, items=items)
     elif clean:
-- 
2.43.0


From 3ddcc388f4f40f86480b1e4bd12393c625d8da61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 08/48] fix: clean_header must not promote repeated
 EXPOSURE/COLORCORR lines to active header lines

---
 raytools/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 5347eaf..b7220c3 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -517,7 +517,10 @@ class CleanHeader(object):
             if key == "..." or key == lastkey and len(curf) > 0:  # unwrap previously cleaned header
                 curf[-1] += " " + val.lstrip()
                 vals[-1] += " " + val.lstrip()
-            elif cl in vals:  # promote
+            # promoted to the top level, exposure lines would (again) apply to
+            # the pixel values
+            elif (cl in vals and key not in
+                  ("EXPOSURE", "COLORCORR")):  # promote
                 idx = self._pop_and_promote(files, cl)
                 if idx is not None:
                     f = files
-- 
2.43.0


From 76ad53ce3c4dc1c4387e8cfd85a67f99b2bdc0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 09/48] fix: clean_header raises on a continuation line that
 follows no other line

---
 raytools/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index b7220c3..942e3c6 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -514,7 +514,8 @@ class CleanHeader(object):
                 curf = cs[-1]['content']
             else:
                 curf = files
-            if key == "..." or key == lastkey and len(curf) > 0:  # unwrap previously cleaned header
+            if ((key == "..." or key == lastkey) and len(curf) > 0 and
+                    type(curf[-1]) == str):  # unwrap previously cleaned header
                 curf[-1] += " " + val.lstrip()
                 vals[-1] += " " + val.lstrip()
             # promoted to the top level, exposure lines would (again) apply to
-- 
2.43.0


From 292066b3d2f3f9bc81540eda2a2839e2f999bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 10/48] fix: rgbe2lum overflows on 8-bit rgbe data

---
 raytools/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytools/io.py b/raytools/io.py
index 942e3c6..6ac64db 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -352,6 +352,7 @@ def rgbe2lum(rgbe):
     -------
     lum: luminance in cd/m^2
     """
+    rgbe = np.asarray(rgbe).astype(int)
     v = np.power(2., rgbe[:, 3] - 128).reshape(-1, 1) / 256
     rgb = np.where(rgbe[:, 0:3] == 0, 0, (rgbe[:, 0:3] + 0.5) * v)
     # luminance = 179 * (0.265*R + 0.670*G + 0.065*B)
-- 
2.43.0


From 18576c321fdbd5fab3356c4d1a48916ac7815812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 11/48] fix: imgmetric color metrics fail without LuminanceRGB
 and ignore it for the peak

---
 raytools/imagetools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index f3150e3..1ccf8d5 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -471,6 +471,10 @@ def imgmetric(imgf, metrics, peakn=False, scale=179, lumrgb=None, threshold=2000
         else:
             if not needscolor and np.allclose((0.26507413, 0.67011463, 0.06481124), lumrgb, atol=.001):
                 lumrgb = None
+    if needscolor:
+        if lumrgb is None:
+            lumrgb = (0.265, 0.670, 0.065)
+        peakwargs.update(vlambda=lumrgb)
     v, o, l = hdr2vol(imgf, vm, needscolor, vlambda=lumrgb)
     if peakn:
         v, o, l = normalize_peak(v, o, l, scale, **peakwargs)
-- 
2.43.0


From 314cbdb63894b8e0536e466c21c0f749411cf6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 12/48] fix: GSS fails on images without a view in the header

---
 raytools/evaluate/hvsgsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index a7e4818..ae91aa3 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -414,6 +414,8 @@ class GSS:
     def vm(self, view):
         if isinstance(view, ViewMapper):
             vm = view
+        elif view is None:
+            vm = ViewMapper(viewangle=180)
         else:
             try:
                 vm = itl.hdr2vm(view)
-- 
2.43.0


From 0a2a31c525a80c4311a03b12e83dae778c145eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 13/48] fix: hdr2vol solid angles only cover half of a 360
 degree image

---
 raytools/imagetools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 1ccf8d5..70643a1 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -205,6 +205,9 @@ def hdr2vol(imgf, vm=None, color=False, vlambda=None):
         vm = hdr2vm(imgf)
     vecs = vm.pixelrays(ar.shape[-1]).reshape(-1, 3)
     oga = vm.pixel2omega(vm.pixels(ar.shape[-1]), ar.shape[-1]).ravel()
+    if vm.aspect == 2:
+        # the opposite hemisphere has the same pixel layout
+        oga = np.tile(oga, 2)
     return vecs, oga, np.squeeze(ar.reshape(-1, ar.shape[-1]*ar.shape[-2])).T
 
 
-- 
2.43.0


From a517e1d0cda41221bb3cfb3110c24d8c3a95cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 14/48] fix: non_uniform_gaussian_filter does not restore the
 order of unsorted data

---
 raytools/translate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 0e042d8..2bbc800 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -562,8 +562,8 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         idxs = xr
     amu = np.apply_along_axis(nugf, 0, np.reshape(idxs, (1, -1)), x, y, sigma)
     # sort back unless already sorted or resampled
-    if inv_sort is not None and resample is None:
-        amu = amu[inv_sort]
+    if inv_sort is not None and xr is None:
+        amu = amu[..., inv_sort]
     return amu
 
 
-- 
2.43.0


From b69d41685b8e44a29b5718d9eded07bc4e4894d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 15/48] fix: non_uniform_gaussian_filter fails with several
 features outside of the mean

---
 raytools/translate.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 2bbc800..c8c2865 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -499,12 +499,19 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         afunc = weighted_quantile
         akwargs = dict(q=q)
 
+    def _average(yp, weights):
+        # quantiles are calculated on 1d data
+        if len(yp) > 1 and afunc is not np.average:
+            return np.ravel([afunc(yi, weights=weights, **akwargs)
+                             for yi in yp])
+        return afunc(yp, weights=weights, **akwargs)
+
     def _nugf_x(x0, xp, yp, sp):
         """average yp spaced by xp at x0 for a sigma=sp"""
         n = stats.norm(loc=x0, scale=sp)
         weights = n.pdf(xp)
         if np.sum(weights) > 0:
-            mu = afunc(yp, weights=weights, **akwargs)
+            mu = _average(yp, weights)
         else:
             # fall back to linear interpolation
             mui = np.searchsorted(xp, x0)[0]
@@ -514,8 +521,8 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
                 mu = yp[:, 0]
             else:
                 mu = np.average((yp[:, mui], yp[:, mui-1]), axis=0,
-                                weights=(x0-xp[mui-1], xp[mui]-x0))
-            if 'q' in akwargs:
+                                weights=np.ravel((x0-xp[mui-1], xp[mui]-x0)))
+            if 'q' in akwargs and len(mu) == 1:
                 mu = np.full(len(akwargs['q']), mu)
         return mu
 
-- 
2.43.0


From f940e4d9088d8cb6b42ca9903b25e3cff7f8b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 16/48] fix: weighted_quantile drops the last value for
 quantiles just below 1

---
 raytools/translate.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index c8c2865..9bcb17f 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -437,14 +437,9 @@ def weighted_quantile(d, weights=None, q=0.5, t=0.0):
         cw = cw - cw[0]
         midp = np.asarray(q) * cw[-1]
         li = np.searchsorted(cw, midp, side='right') - 1
-        ri = np.where(np.isclose(q, 1), li, li+1)
-        try:
-            dn = np.where(np.isclose(q, 1), 1, (cw[ri] - cw[li]))
-        except IndexError as ex:
-            result = np.quantile(d, q)
-        else:
-            result = d[li] + (d[ri] - d[li]) * (midp - cw[li])/dn
-        return result
+        ri = np.minimum(li + 1, len(d) - 1)
+        dn = np.where(ri == li, 1, (cw[ri] - cw[li]))
+        return d[li] + (d[ri] - d[li]) * (midp - cw[li])/dn
 
 
 def weighted_median(d, weights=None, t=0.0):
-- 
2.43.0


From 37bd7e0ecfd3824b7786363e36238e7b685cc21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 17/48] fix: pixel jitter is broadcast over the wrong axes

---
 raytools/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index e3c5f23..5b5e31f 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -151,7 +151,7 @@ class Mapper(object):
         xres, yres = self.framesize(res)
         if jitter > 0:
             rng = ((1 - jitter)/2, (1 + jitter)/2)
-            offset = np.random.default_rng().uniform(*rng, (xres, yres)).T
+            offset = np.random.default_rng().uniform(*rng, (xres, yres, 2))
         else:
             offset = 0.5
         return np.stack(np.mgrid[0:xres, 0:yres], 2) + offset
-- 
2.43.0


From 20676eb277f2f7d2ff18ac28a9cd1a0a60763c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 18/48] fix: array_rotate samples the image half a pixel off

---
 raytools/imagetools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 70643a1..95fe6ad 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -122,7 +122,8 @@ def array_rotate(imarray, ang, center=None, rotate_first=True, fill_value=None,
             pxyz = vm2.view2world(vm.world2view(pxyz))
 
     pxy = vm.ray2pixel(pxyz, res, integer=False)
-    x = np.arange(res)
+    # pixel centers
+    x = np.arange(res) + .5
     if nearest:
         method = "nearest"
     else:
-- 
2.43.0


From 84b75dfe1295a5ab85afb576459869447278b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 19/48] fix: ViewMapper.uv2idx is not the inverse of idx2uv for
 360 degree views

---
 raytools/mapper/viewmapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raytools/mapper/viewmapper.py b/raytools/mapper/viewmapper.py
index 0354a0b..2d844ae 100644
--- a/raytools/mapper/viewmapper.py
+++ b/raytools/mapper/viewmapper.py
@@ -94,6 +94,11 @@ class ViewMapper(AngularMixin, Mapper):
         uv = (si.T + offset)/shape[1]
         return uv
 
+    @staticmethod
+    def uv2idx(uv, shape):
+        ij = (uv * shape[1]).astype(int)
+        return ij[:, 0] * shape[1] + ij[:, 1]
+
     def transform_to(self, imarray, other, nearest=False):
         """take an image arrray with an assumed projection of self and
         transform it to other
-- 
2.43.0


From f7cf817d54bc853da57e8770a421e77c79288ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 20/48] fix: metric sets assign one clipped solid angle to all
 rays at the view edge and edit the caller's omega

---
 raytools/evaluate/basemetricset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index bbda4a9..eed6d59 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -85,6 +85,7 @@ class BaseMetricSet(object):
             else:
                 stray = []
             if len(stray) > 0:
+                omega = np.copy(omega)
                 ost = np.atleast_1d(omega[stray])
                 vsts = v[stray].reshape(-1, 3)
                 ds = self.vm.radians(vsts)
@@ -97,7 +98,7 @@ class BaseMetricSet(object):
                         x = (a2 - b2 + np.square(d)) / (2 * d)
                         x2 = np.square(x)
                         y = np.sqrt(a2 - x2)
-                        omega[stray] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
+                        omega[s] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
                                         y * (x + np.sqrt(b2 - a2 + x2)))
                         up = np.cross(vst, self.vm.dxyz)
                         r = d - x
-- 
2.43.0


From 0f9b0bf07562fd0456abfa0ef6a257246263126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 21/48] fix: header of a straight down view has parallel view
 direction and view up

---
 raytools/mapper/angularmixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index 2cd86f8..14daa39 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -118,7 +118,7 @@ class AngularMixin(object):
             return mask
 
     def header(self, pt=(0, 0, 0), viewproj='vta', **kwargs):
-        if np.allclose(self.dxyz, (0, 0, 1)):
+        if np.allclose(np.abs(self.dxyz), (0, 0, 1)):
             vup = "0 1 0"
         else:
             vup = "0 0 1"
-- 
2.43.0


From b6acad89d094ebc325f9e141385643f6fdbe5d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 22/48] fix: hdr_rotate without rotation or center overwrites
 its input

---
 raytools/imagetools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 95fe6ad..aef88ee 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -187,6 +187,9 @@ def hdr_rotate(imgf, outf=None, rotate=0.0, center=None, rotate_first=True,
         cl += f"_{center[0]}-{center[1]}"
     if (not rotate_first) and rotate != 0:
         cl += f"_r{int(rotate):02d}"
+    if cl == "":
+        # do not overwrite imgf
+        cl = "_r00"
     if outf is None and not stdout:
         outf = imgf.rsplit(".", 1)[0] + f"{cl}.hdr"
     imarray, header = io.hdr2carray(imgf, header=True)
-- 
2.43.0


From 3144df5d64a6aaef908536737fd8f5eaabfbf519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 23/48] fix: load_txt raises TypeError on a bytes path

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 6ac64db..5fd7a41 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -386,7 +386,7 @@ def load_txt(farray, **kwargs):
     if isinstance(farray, (str, bytes)):
         if os.path.isfile(farray):
             try:
-                return np.loadtxt(farray, **kwargs)
+                return np.loadtxt(os.fsdecode(farray), **kwargs)
             except (ValueError, AttributeError):
                 raise ValueError
         else:
-- 
2.43.0


From 3cdb22e45428bbd4952f337c0e7c7ea386462b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 24/48] fix: clean_header never returns on a long line with =
 beyond the header width

---
 raytools/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 5fd7a41..513515c 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -444,6 +444,9 @@ class CleanHeader(object):
             try:
                 key, _ = i.strip().split("=", 1)
                 indent = re.match(r"\s*", i).group() + key + "= "
+                # commands can contain a "=" beyond the header width
+                if len(indent) > self.headerwidth / 2:
+                    raise ValueError
             except ValueError:
                 indent = re.match(r"\s*", i).group() + "   ...  "
             hdr.append(textwrap.fill(i, expand_tabs=False,
@@ -497,7 +500,7 @@ class CleanHeader(object):
                 continue
 
             sep = None
-            if "=" in cl:
+            if "=" in cl and not cl.startswith("... "):
                 sep = "="
             try:
                 key, val = cl.split(sep, 1)
-- 
2.43.0


From 505a6675037b486e8e4cceae673b684a260877a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 25/48] fix: clean_header detaches entries from nested
 sections, which can activate EXPOSURE lines

---
 raytools/io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 513515c..1d3689a 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -489,8 +489,9 @@ class CleanHeader(object):
                     cs[-1]['content'].append(fi)
                     cs.append(fi)
                 else:
-                    le = depth - cs[-1]['depth']
-                    cs = cs[:-(le+1)]
+                    # close all files up to the parent
+                    while len(cs) > 0 and depth <= cs[-1]['depth']:
+                        cs.pop()
                     if len(cs) == 0:
                         cs.append(fi)
                         files.append(fi)
@@ -536,9 +537,8 @@ class CleanHeader(object):
                     f.insert(idx[k], cl)
             else:
                 vals.append(f"{key}{sep}{val}")
-                if len(cs) > 0 and depth <= cs[-1]['depth']:
-                    le = cs[-1]['depth'] - depth
-                    cs = cs[:-(le + 1)]
+                while len(cs) > 0 and depth <= cs[-1]['depth']:
+                    cs.pop()
                 if len(cs) > 0:
                     cs[-1]['content'].append(vals[-1])
                 else:
-- 
2.43.0


From e2d6655d38e2b472f329be53983862dbb26ebd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 26/48] fix: xyz2tp drops the azimuth of vectors near the nadir

---
 raytools/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 9bcb17f..7249860 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -259,7 +259,7 @@ def xyz2tp(xyz):
     xyz = np.atleast_2d(xyz)
     theta = np.arccos(xyz[:, 2])
     phi = np.where(np.isclose(theta, 0.0, atol=1e-10), np.pi,
-                   np.where(np.isclose(theta, np.pi, atol=1e-10),
+                   np.where(np.isclose(theta, np.pi, rtol=0, atol=1e-10),
                             np.pi, np.arctan2(xyz[:, 1], xyz[:, 0])))
     return tpnorm(np.column_stack([theta, phi]))
 
-- 
2.43.0


From fda1b16fbc98be88109346e0cfd63e59c9056f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:10 +0000
Subject: [PATCH 27/48] fix: hdr2vm leaks a file descriptor per call and needs
 a writable cwd

---
 raytools/imagetools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index aef88ee..aea7662 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -9,6 +9,7 @@
 
 """functions for translating from mappers to hdr"""
 import shlex
+from subprocess import Popen, PIPE
 
 import numpy as np
 import clasp.script_tools as cst
@@ -241,11 +242,10 @@ def img_size(imgf):
 
 def hdr2vm(imgf, vpt=False):
     """hdr to ViewMapper"""
-    header, err = cst.pipeline([f"getinfo {shlex.quote(str(imgf))}"], caperr=True)
-    try:
-        err = err.decode("utf-8")
-    except AttributeError:
-        pass
+    # cst.pipeline(caperr=True) needs a writable working directory and leaves
+    # a file descriptor open with every call
+    getinfo = Popen(["getinfo", str(imgf)], stdout=PIPE, stderr=PIPE)
+    header, err = (i.decode("utf-8", "replace") for i in getinfo.communicate())
     if "bad header!" in err:
         raise IOError(f"{err} - wrong file type?")
     elif "cannot open" in header:
-- 
2.43.0


From 24dfa7663c86e0aeb2fb0921ef6bb9d940e7d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 28/48] fix: normalize_peak keeps the shape of the values when
 one ray is left

---
 raytools/imagetools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index aea7662..f25d8cc 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -434,12 +434,12 @@ def normalize_peak(v, o, l, scale=179, peaka=6.7967e-05, peakt=1e5, peakr=4,
         if returnparts:
             v = vol[:, 0:3]
             omega = vol[:, 3]
-            lum = np.squeeze(vol[:, 4:])
+            lum = vol[:, 4:].reshape(-1, *l.shape[1:])
         else:
             # then add new consolidated ray back to output v, o, l
             v = np.vstack((vol[:, 0:3], [pvol[0]]))
             omega = np.concatenate((vol[:, 3], [pvol[1]]))
-            lum = np.squeeze(np.vstack((vol[:, 4:], np.atleast_2d(pvol[2].T))))
+            lum = np.vstack((vol[:, 4:], np.atleast_2d(pvol[2].T))).reshape(-1, *l.shape[1:])
     else:
         if len(l.shape) > 1:
             pvol = np.zeros(4 + l.shape[-1])
-- 
2.43.0


From ae17a882abbe93993f5254947844f7cbe9fb0bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:47 +0000
Subject: [PATCH 29/48] fix: hdr2vol keeps the shape of the values of a single
 pixel image

---
 raytools/imagetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index f25d8cc..9c452c6 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -213,7 +213,7 @@ def hdr2vol(imgf, vm=None, color=False, vlambda=None):
     if vm.aspect == 2:
         # the opposite hemisphere has the same pixel layout
         oga = np.tile(oga, 2)
-    return vecs, oga, np.squeeze(ar.reshape(-1, ar.shape[-1]*ar.shape[-2])).T
+    return vecs, oga, ar.reshape(*ar.shape[:-2], -1).T
 
 
 def vf_to_vm(view):
-- 
2.43.0


From bc9385bf3a5e0b094e201924b2b7583e3cd2f2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:52 +0000
Subject: [PATCH 30/48] fix: failed image writes hang or go unnoticed

---
 raytools/io.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 1d3689a..01610a1 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -12,7 +12,7 @@ import re
 import os
 import sys
 import textwrap
-from subprocess import Popen, PIPE
+from subprocess import Popen, PIPE, run
 
 import numpy as np
 
@@ -140,22 +140,24 @@ def _array2hdr(ar, imgf, header, pval, clean=False):
         f = None
     else:
         f = open(imgf, 'wb')
+    cmds = [pval.split()]
     if header is not None:
         if clean:
             header = clean_header(header)
-        getinfo = ["getinfo", "-a", *(header or [""])]
-        p = Popen(pval.split(), stdin=PIPE, stdout=PIPE)
-        q = Popen(getinfo, stdin=p.stdout, stdout=f)
-    else:
-        p = Popen(pval.split(), stdin=PIPE, stdout=f)
-        q = p
-    p.stdin.write(np2bytes(ar))
-    p.stdin.flush()
-    q.communicate()
+        cmds.append(["getinfo", "-a", *(header or [""])])
+    img = np2bytes(ar)
     try:
-        f.close()
-    except AttributeError:
-        pass
+        for cmd in cmds:
+            # the programs do not report every failed write, so only use their
+            # stdout directly when there is no file
+            to_stdout = f is None and cmd is cmds[-1]
+            img = run(cmd, input=img, check=True,
+                      stdout=None if to_stdout else PIPE).stdout
+        if f is not None:
+            f.write(img)
+    finally:
+        if f is not None:
+            f.close()
     return imgf
 
 
-- 
2.43.0


From bcaafc3f054c825554e8ec917ee9c8f0e4929882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:49 +0000
Subject: [PATCH 31/48] fix: images with "cannot open" in name or header are
 reported missing

---
 raytools/imagetools.py | 3 ++-
 raytools/io.py         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 9c452c6..4e7f4ad 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -248,7 +248,8 @@ def hdr2vm(imgf, vpt=False):
     header, err = (i.decode("utf-8", "replace") for i in getinfo.communicate())
     if "bad header!" in err:
         raise IOError(f"{err} - wrong file type?")
-    elif "cannot open" in header:
+    # only the message of getinfo (the text could be part of name or header)
+    elif header.startswith(f"{imgf}: cannot open"):
         raise FileNotFoundError(f"{imgf} not found")
     vp = None
     if "VIEW= -vta" in header:
diff --git a/raytools/io.py b/raytools/io.py
index 01610a1..e49a26a 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -321,7 +321,8 @@ def hdr_header(imgf, clean=False, items=None):
         header = p[0].decode("utf-8")
     except UnicodeDecodeError:
         raise IOError(f"{err} - wrong file type?")
-    if "cannot open" in header:
+    # only the message of getinfo (the text could be part of name or header)
+    if header.startswith(f"{imgf}: cannot open"):
         raise FileNotFoundError(f"{imgf} not found")
     header = [i for i in header.strip().splitlines() if not re.match(r".*#\?RADIANCE.*", i)]
     if items is not None:
-- 
2.43.0


From fff8307f71f897aac3dbad0827cee502954c8a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:07 +0000
Subject: [PATCH 32/48] fix: img_size fails on names with X or Y and guesses a
 size for unreadable images

---
 raytools/imagetools.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 4e7f4ad..1c5154a 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -8,12 +8,10 @@
 # =======================================================================
 
 """functions for translating from mappers to hdr"""
-import shlex
-from subprocess import Popen, PIPE
+import re
+from subprocess import Popen, PIPE, run
 
 import numpy as np
-import clasp.script_tools as cst
-
 
 from raytools import translate, io
 from raytools.evaluate import MetricSet, ColorMetricSet, retina
@@ -229,15 +227,13 @@ def vf_to_vm(view):
 
 
 def img_size(imgf):
-    hd = cst.pipeline([f"getinfo -d {shlex.quote(str(imgf))}"]).strip().split()
-    x = 1
-    y = 1
-    for i in range(2, len(hd)):
-        if 'X' in hd[i - 1]:
-            x = int(hd[i])
-        elif 'Y' in hd[i - 1]:
-            y = int(hd[i])
-    return x, y
+    getinfo = run(["getinfo", "-d", str(imgf)], stdout=PIPE, stderr=PIPE)
+    hd = getinfo.stdout.decode("utf-8", "replace").strip()
+    # the resolution follows the file name, which could be anything
+    size = dict(re.findall(r"[-+]([XY]) (\d+)", hd.rsplit(":", 1)[-1]))
+    if getinfo.returncode != 0 or len(size) < 2:
+        raise IOError(f"no image size for {imgf}: {hd}")
+    return int(size["X"]), int(size["Y"])
 
 
 def hdr2vm(imgf, vpt=False):
-- 
2.43.0


From b7cc9d198ef389f57cb6c734dbbb2b3aeb760844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:17 +0000
Subject: [PATCH 33/48] fix: a helper program that dies while a header is read
 is not noticed

---
 raytools/imagetools.py | 2 ++
 raytools/io.py         | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 1c5154a..ddb3eb3 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -247,6 +247,8 @@ def hdr2vm(imgf, vpt=False):
     # only the message of getinfo (the text could be part of name or header)
     elif header.startswith(f"{imgf}: cannot open"):
         raise FileNotFoundError(f"{imgf} not found")
+    elif getinfo.returncode != 0:
+        raise IOError(f"getinfo failed on {imgf}: {err}")
     vp = None
     if "VIEW= -vta" in header:
         vp = header.rsplit("VIEW= -vta", 1)[-1].splitlines()[0].split()
diff --git a/raytools/io.py b/raytools/io.py
index e49a26a..8964ed3 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -309,7 +309,8 @@ def hdr_header(imgf, clean=False, items=None):
     getinfo = ["getinfo"]
     if imgf != "":
         getinfo.append(str(imgf))
-    p = Popen(getinfo, stdout=PIPE, stderr=PIPE).communicate()
+    proc = Popen(getinfo, stdout=PIPE, stderr=PIPE)
+    p = proc.communicate()
     err = p[1]
     try:
         err = err.decode("utf-8")
@@ -324,6 +325,8 @@ def hdr_header(imgf, clean=False, items=None):
     # only the message of getinfo (the text could be part of name or header)
     if header.startswith(f"{imgf}: cannot open"):
         raise FileNotFoundError(f"{imgf} not found")
+    if proc.returncode != 0:
+        raise IOError(f"getinfo failed on {imgf}: {err}")
     header = [i for i in header.strip().splitlines() if not re.match(r".*#\?RADIANCE.*", i)]
     if items is not None:
         header = header_items(header, items=items)
-- 
2.43.0


From d4a65d329e05acd2dd1f476b61c0e860a9001964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:45 +0000
Subject: [PATCH 34/48] fix: failed image writes to stdout go unnoticed

---
 raytools/io.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 8964ed3..d9bf47d 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -136,28 +136,18 @@ def _array2hdr(ar, imgf, header, pval, clean=False):
         -------
         imgf
         """
-    if imgf is None:
-        f = None
-    else:
-        f = open(imgf, 'wb')
+    # the programs do not report every failed write, so write their output here
+    f = open(1 if imgf is None else imgf, 'wb', closefd=imgf is not None)
     cmds = [pval.split()]
     if header is not None:
         if clean:
             header = clean_header(header)
         cmds.append(["getinfo", "-a", *(header or [""])])
     img = np2bytes(ar)
-    try:
+    with f:
         for cmd in cmds:
-            # the programs do not report every failed write, so only use their
-            # stdout directly when there is no file
-            to_stdout = f is None and cmd is cmds[-1]
-            img = run(cmd, input=img, check=True,
-                      stdout=None if to_stdout else PIPE).stdout
-        if f is not None:
-            f.write(img)
-    finally:
-        if f is not None:
-            f.close()
+            img = run(cmd, input=img, check=True, stdout=PIPE).stdout
+        f.write(img)
     return imgf
 
 
-- 
2.43.0


From 83625b4d7bc22cc019122539aad843b3fdcc468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:55 +0000
Subject: [PATCH 35/48] fix: smooth scales the bandwidth of its KDE with the
 spread of the data twice

---
 raytools/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/cli.py b/raytools/cli.py
index 9ee7c21..3153adb 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -271,7 +271,8 @@ def smooth(ctx, dataf, x=0, x_out=(1000.0,), y=(-1,), sigma=None, sf=1.0,
     sigma *= sf
     bw = None
     if dy.size == 0:
-        k = stats.gaussian_kde(dx, bw_method=sigma)
+        # bw_method is in units of the standard deviation of the data
+        k = stats.gaussian_kde(dx, bw_method=sigma / np.sqrt(np.cov(dx)))
         y_out = k(x_out)[None]
     else:
         y_out = translate.non_uniform_gaussian_filter(dx, dy, x_out,
-- 
2.43.0


From e1bfb554df0a41803e9cb1f0c0c8b9821d881480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:22 +0000
Subject: [PATCH 36/48] fix: header_items fills every slot of a repeated item

---
 raytools/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index d9bf47d..56bf2d5 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -277,8 +277,9 @@ def header_items(header, items):
             key = cl
             val = ''
         key = key.lower()
-        if key in items:
-            out[items.index(key)] = val.strip()
+        for i, item in enumerate(items):
+            if item == key:
+                out[i] = val.strip()
     return out
 
 
-- 
2.43.0


From 52e40bb831a8574f0e880ccc227cd1acf1596c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 37/48] fix: nested pixel aspect and primaries never become
 active in a cleaned header

---
 raytools/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 56bf2d5..2aed059 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -520,10 +520,10 @@ class CleanHeader(object):
                     type(curf[-1]) == str):  # unwrap previously cleaned header
                 curf[-1] += " " + val.lstrip()
                 vals[-1] += " " + val.lstrip()
-            # promoted to the top level, exposure lines would (again) apply to
+            # promoted to the top level, these lines would (again) apply to
             # the pixel values
             elif (cl in vals and key not in
-                  ("EXPOSURE", "COLORCORR")):  # promote
+                  ("EXPOSURE", "COLORCORR", "PIXASPECT", "PRIMARIES")):  # promote
                 idx = self._pop_and_promote(files, cl)
                 if idx is not None:
                     f = files
-- 
2.43.0


From 7a81a22086933062d05dc3cc40d512ae2ffec045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:23 +0000
Subject: [PATCH 38/48] fix: words with hyphens are not broken when header
 lines are wrapped

---
 raytools/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytools/io.py b/raytools/io.py
index 2aed059..a7aa8e0 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -449,6 +449,7 @@ class CleanHeader(object):
             hdr.append(textwrap.fill(i, expand_tabs=False,
                                      replace_whitespace=False,
                                      drop_whitespace=False,
+                                     break_on_hyphens=False,
                                      width=self.headerwidth,
                                      subsequent_indent=indent))
         header = "\n".join(hdr).splitlines()
-- 
2.43.0


From 7b005f1cb322d8d94580f72d62cf1978f6389d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:15 +0000
Subject: [PATCH 39/48] fix: frame size of a mapper follows its aspect

framesize was cached per (mapper, resolution), a changed aspect had no
effect until another resolution was asked for
---
 raytools/mapper/mapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index 5b5e31f..0927f6f 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -6,8 +6,6 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
-import functools
-
 import numpy as np
 from scipy.ndimage import uniform_filter
 
@@ -136,7 +134,6 @@ class Mapper(object):
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
-    @functools.lru_cache(1)
     def framesize(self, res):
         if self.aspect < 1:
             yres = res
-- 
2.43.0


From fcaa6db4588125218f75270e37966c89137e6f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:55 +0000
Subject: [PATCH 40/48] fix: solid2ang keeps the fraction of interpolated
 integer images

---
 raytools/mapper/viewmapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/mapper/viewmapper.py b/raytools/mapper/viewmapper.py
index 2d844ae..b00dee0 100644
--- a/raytools/mapper/viewmapper.py
+++ b/raytools/mapper/viewmapper.py
@@ -122,7 +122,8 @@ class ViewMapper(AngularMixin, Mapper):
             features = imarray.shape[0]
         else:
             features = 1
-        img = np.zeros_like(imarray)
+        # interpolated values of an integer image are not integer
+        img = np.zeros(imarray.shape, np.result_type(imarray, np.float32))
         pxyz = self.pixelrays(res)
         mask = other.in_view(pxyz, indices=False)
 
-- 
2.43.0


From 46ad1a22dbb2377abb360d1dd570b16f1766ad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:20 +0000
Subject: [PATCH 41/48] fix: retinal densities at integer positions truncate
 their terms

---
 raytools/evaluate/retina.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/evaluate/retina.py b/raytools/evaluate/retina.py
index ef58b31..aee6f32 100644
--- a/raytools/evaluate/retina.py
+++ b/raytools/evaluate/retina.py
@@ -154,7 +154,8 @@ def rgcf_density_xy(xy, func=rgcf_density_on_meridian):
     ymi = np.where(xy[:, 0] > 0, 1, 3)
     dx = func(r, xmi)
     dy = func(r, ymi)
-    xy2 = np.square(xy)
+    # the terms of integer positions are not integer
+    xy2 = np.square(xy, dtype=float)
     xy2[:, 0] = xy2[:, 0] / dx
     xy2[:, 1] = xy2[:, 1] / dy
     den = np.sum(xy2, axis=-1)
-- 
2.43.0


From d0f572b53514c51836f55b475177ef8bec6d5a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:20 +0000
Subject: [PATCH 42/48] fix: resample truncates the averages of integer arrays

---
 raytools/translate.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 7249860..d730349 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -379,24 +379,26 @@ def resample(samps, ts=None, gauss=True, radius=None):
     if ts is None:
         ts = samps.shape
     rs = np.array(ts)/np.array(samps.shape)
+    # integers turn into fractions when filtered
+    ftype = np.result_type(samps, np.float32)
     if np.prod(rs) > 1:
         for i in range(len(rs)):
             samps = np.repeat(samps, rs[i], i)
         if gauss:
             if radius is None:
                 radius = tuple(rs - 1)
-            samps = gaussian_filter(samps, radius)
+            samps = gaussian_filter(samps, radius, output=ftype)
     elif np.prod(rs) < 1:
         rs = (1/rs).astype(int)
         og = (-rs/2).astype(int)
-        samps = uniform_filter(samps, rs, origin=og)
+        samps = uniform_filter(samps, rs, output=ftype, origin=og)
         for i, j in enumerate(rs):
             samps = np.take(samps, np.arange(0, samps.shape[i], j), i)
     elif radius is not None:
         if gauss:
-            samps = gaussian_filter(samps, radius)
+            samps = gaussian_filter(samps, radius, output=ftype)
         else:
-            samps = uniform_filter(samps, int(radius))
+            samps = uniform_filter(samps, int(radius), output=ftype)
     return samps
 
 ####################################
-- 
2.43.0


From 4d2fe8421844d1b438691b4f310c7ae6e636ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:20 +0000
Subject: [PATCH 43/48] fix: smoothed integer data are truncated when the first
 position is far off

---
 raytools/translate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index d730349..3533185 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -540,7 +540,8 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         i2 = np.clip((i - bw, i + bw), 0, len(xp)).astype(int).ravel()
         return _nugf_x(xp[i], xp[i2[0]:i2[1]], yp[:, i2[0]:i2[1]], sp)
 
-    y = np.atleast_2d(y)
+    # with integers, the first result would set the type of all
+    y = np.atleast_2d(y).astype(float)
     # sort data if necessary
     if not np.all(x[:-1] <= x[1:]):
         sorti = np.argsort(x, kind='stable')
-- 
2.43.0


From 6a0319a8abf76a843150815fba20db4aae9738d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:13 +0000
Subject: [PATCH 44/48] fix: header cleaning merges EXPOSURE entries and
 activates those without a section

---
 raytools/io.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index a7aa8e0..8ddfa10 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -410,6 +410,9 @@ class CleanHeader(object):
         headerwidth: int, optional
     """
 
+    #: at the top level, these entries apply to the pixel values
+    active = ("EXPOSURE", "COLORCORR", "PIXASPECT", "PRIMARIES")
+
     def __init__(self, text, spacespertab=4, outtab="\t", headerwidth=150):
         self.spacespertab = spacespertab
         self.outtab = outtab
@@ -469,6 +472,7 @@ class CleanHeader(object):
         vals = []  # use to check for redundant lines
         cs = []  # the current stack of file nesting
         lastkey = ""
+        lastdepth = 0
         for i, h in enumerate(self._text.splitlines()):
             cl = h.strip()
             cl = re.sub(r"\S*clasp_tmp[^\s:]*", "<stdin>", cl)
@@ -517,14 +521,14 @@ class CleanHeader(object):
                 curf = cs[-1]['content']
             else:
                 curf = files
-            if ((key == "..." or key == lastkey) and len(curf) > 0 and
+            if ((key == "..." or key == lastkey and key not in self.active) and
+                    depth == lastdepth and len(curf) > 0 and
                     type(curf[-1]) == str):  # unwrap previously cleaned header
                 curf[-1] += " " + val.lstrip()
                 vals[-1] += " " + val.lstrip()
             # promoted to the top level, these lines would (again) apply to
             # the pixel values
-            elif (cl in vals and key not in
-                  ("EXPOSURE", "COLORCORR", "PIXASPECT", "PRIMARIES")):  # promote
+            elif cl in vals and key not in self.active:  # promote
                 idx = self._pop_and_promote(files, cl)
                 if idx is not None:
                     f = files
@@ -539,9 +543,13 @@ class CleanHeader(object):
                     cs.pop()
                 if len(cs) > 0:
                     cs[-1]['content'].append(vals[-1])
+                elif depth > 0 and key in self.active:
+                    # indented, they do not apply to the pixel values
+                    files.append(self.outtab + vals[-1])
                 else:
                     files.append(vals[-1])
             lastkey = key
+            lastdepth = depth
         return files, view
 
     def _pop_and_promote(self, data, val, idx=None):
-- 
2.43.0


From 2abd693badff70792009e2bb02fce7be2c8c64f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:08 +0000
Subject: [PATCH 45/48] fix: small bright sources at the border of the view
 have a solid angle

rounding brought the half chord of the overlap beyond the radius of the source
(solid angles below 1e-6): arcsin gave nan, and so did every metric
---
 raytools/evaluate/basemetricset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index eed6d59..155118c 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -97,9 +97,11 @@ class BaseMetricSet(object):
                     if a - b < d < a + b:
                         x = (a2 - b2 + np.square(d)) / (2 * d)
                         x2 = np.square(x)
-                        y = np.sqrt(a2 - x2)
-                        omega[s] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
-                                        y * (x + np.sqrt(b2 - a2 + x2)))
+                        # (rounding must not put y beyond the source radius)
+                        y = np.sqrt(np.clip(a2 - x2, 0, b2))
+                        omega[s] = (a2*np.arcsin(y/a) +
+                                    b2*np.arcsin(np.minimum(y/b, 1)) -
+                                    y * (x + np.sqrt(np.maximum(b2 - a2 + x2, 0))))
                         up = np.cross(vst, self.vm.dxyz)
                         r = d - x
                         ymtx, pmtx = translate.rmtx_yp(up)
-- 
2.43.0


From 849ac029a29b9b04b57ff24c1e636571c4b0f504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:43 +0000
Subject: [PATCH 46/48] fix: angles of vectors with rounding beyond unit length

xyz2tp and chord2theta returned nan for unit vectors whose components
exceed one by rounding (the view axis in view coordinates, opposite
unit vectors).
---
 raytools/translate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 3533185..e2e4cfb 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -257,7 +257,8 @@ def tp2xyz(thetaphi, normalize=True):
 def xyz2tp(xyz):
     """calculate theta (0-pi), phi from x,y,z RHS Z-up"""
     xyz = np.atleast_2d(xyz)
-    theta = np.arccos(xyz[:, 2])
+    # (rounding of rotated unit vectors)
+    theta = np.arccos(np.clip(xyz[:, 2], -1, 1))
     phi = np.where(np.isclose(theta, 0.0, atol=1e-10), np.pi,
                    np.where(np.isclose(theta, np.pi, rtol=0, atol=1e-10),
                             np.pi, np.arctan2(xyz[:, 1], xyz[:, 0])))
@@ -293,7 +294,8 @@ def chord2theta(c):
     theta: float
         angle captured by chord
     """
-    return 2*np.arcsin(c/2)
+    # (distance of opposite unit vectors, with rounding)
+    return 2*np.arcsin(np.clip(c/2, -1, 1))
 
 
 def theta2chord(theta):
-- 
2.43.0


From 80e2479707dcc3e156cab3ff06298246f3c3eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:46 +0000
Subject: [PATCH 47/48] fix: temporary files of piped input are removed

---
 raytools/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytools/cli.py b/raytools/cli.py
index 3153adb..099e6a5 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -38,6 +38,9 @@ def main(ctx, config=None, n=None,  **kwargs):
     as part of the raytools python package.
     """
     raytools.io.set_nproc(n)
+    # input from stdin is kept in temporary files
+    ctx.ensure_object(dict)
+    ctx.call_on_close(lambda: clk.tmp_clean(ctx))
     ctx.info_name = 'raytools'
     clk.get_config(ctx, config, None, None, None)
 
-- 
2.43.0


From d6df536d058542212ad68c025218052a555f1998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:13 +0000
Subject: [PATCH 48/48] fix: a changed view of GSS was ignored for images of
 the same size

---
 raytools/evaluate/hvsgsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index ae91aa3..39117da 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -424,6 +424,8 @@ class GSS:
             if vm is None:
                 vm = ViewMapper(viewangle=180)
         self._vm = vm
+        # (the values per pixel belong to the previous view)
+        self._res = 0
 
     # Step 3
     def pupil(self, ev):
-- 
2.43.0

