From 51ee95ae5acd39cb8747773df490e9c4e9f58038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 01/18] fix: do not modify the input arguments in qwe and quad

---
 empymod/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4235f51..9d13293 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1066,7 +1066,7 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
     if hasattr(inp, '__call__'):  # Hankel and not spline
         EM0 = inp(0, lambd, off, ang_fact)
     else:                         # Fourier or Hankel with spline
-        EM0 = inp[:, 0]
+        EM0 = inp[:, 0].copy()
     EM0 *= getweights(0, intervals)
 
     # 2. Pre-allocate arrays and initialize
@@ -1165,7 +1165,7 @@ def quad(sPJ0r, sPJ0i, sPJ1r, sPJ1i, sPJ0br, sPJ0bi, ab, off, ang_fact, iinp):
     out = np.array(0.0+0.0j)
 
     # Carry out quadrature for required kernels
-    iinp['full_output'] = 1
+    iinp = {**iinp, 'full_output': 1}
 
     if sPJ0r is not None:
         re = sp.integrate.quad(quad_PJ0, args=(sPJ0r, off), **iinp)
-- 
2.43.0


From 95a5db70d55903f525719ffd6caff2fa76da4024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 02/18] fix: do not modify fEM in fourier_fftlog

---
 empymod/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 9d13293..ec8d0ae 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -699,7 +699,7 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     if mu > 0:  # Sine
         a = -fEM.imag
     else:       # Cosine
-        a = fEM.real
+        a = fEM.real.copy()
     n = a.size
 
     # 1. Amplitude and Argument of kr^(-2 i y) U_mu(q + 2 i y)
-- 
2.43.0


From 93690aadbc82fc120a3fa20816701ce80e6c382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 03/18] fix: load_filter(full=True) for inversions with a
 single shift

---
 empymod/scripts/fdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index 8738c5f..ed8bf21 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -557,7 +557,7 @@ def load_filter(name, full=False, path='filters', filter_coeff=None):
                                     '_full.txt' + suffix)
 
             # Read data
-            out = np.loadtxt(fullfile)
+            out = np.loadtxt(fullfile, ndmin=2)
 
         except IOError:
             return filt
-- 
2.43.0


From 50ac664feb290022ca28a278b48b692f98b71de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 04/18] fix: printstartfinish for a start time of zero

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 74cc87e..18536fb 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -2042,7 +2042,7 @@ def get_kwargs(names, defaults, kwargs):
 
 def printstartfinish(verb, inp=None, kcount=None):
     r"""Print start and finish with time measure and kernel count."""
-    if inp:
+    if inp is not None:
         if verb > 1:
             ttxt = str(timedelta(seconds=default_timer() - inp))
             ktxt = ' '
-- 
2.43.0


From 9790d2cd238a41a863e9daa534a46e01abf95803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 05/18] fix: main(args) must not depend on sys.argv

---
 empymod/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/__main__.py b/empymod/__main__.py
index 3a60842..d3d4239 100644
--- a/empymod/__main__.py
+++ b/empymod/__main__.py
@@ -90,7 +90,7 @@ def main(args=None):
         print(utils.Report())
 
     # Info if not at list routine and input provided.
-    elif len(sys.argv) < 3:
+    elif len(args) < 2:
         print(f"{parser.description}\n=> Type `empymod --help` for "
               f"more info (empymod v{utils.__version__}).")
 
-- 
2.43.0


From 0aac728059c69eff533fd380ab1020709324aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 06/18] fix: analytical diffusive solutions for a list of
 frequencies

---
 empymod/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 81c0b17..1b91775 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1157,7 +1157,7 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
     if solution[0] == 'd':
         # To make it work with Laplace domain calculations.
         if signal is None:
-            if np.any(freqtime > 0):
+            if np.any(np.asarray(freqtime) > 0):
                 freqtime = 2j*np.pi*freq
             else:
                 freqtime = freq
-- 
2.43.0


From 60e2220166b15ebbcd424c421a5c6a9891cb32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 07/18] fix: gpr without gain

---
 empymod/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 1b91775..28c5242 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1281,7 +1281,8 @@ def gpr(src, rec, depth, res, freqtime, cf, gain=None, ab=11, aniso=None,
     conv_warning(conv, ftarg, 'Fourier', verb)
 
     # Apply gain; make pure real
-    EM *= (1 + np.abs((time*10**9)**gain))[:, None]
+    if gain is not None:
+        EM *= (1 + np.abs((time*10**9)**gain))[:, None]
     EM = EM.real
 
     # Reshape for number of sources
-- 
2.43.0


From 057b6925e957a1d1d1162ac28213e9c201a16ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 08/18] fix: design must not change the provided fC

---
 empymod/scripts/fdesign.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index ed8bf21..485e6f6 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -416,8 +416,9 @@ def design(n, spacing, shift, fI, fC=False, r=None, r_def=(1, 1, 2), reim=None,
     # === 2.  THEORETICAL MODEL rhs ============
 
     # Calculate rhs
-    for i, f in enumerate(fC):
-        fC[i].rhs = f.rhs(r)
+    fC = [dc(f) for f in fC]  # Copy, to not change the provided fC
+    for f in fC:
+        f.rhs = f.rhs(r)
 
     # Plot
     if plot > 1:
-- 
2.43.0


From 35b94380d853cc053072bcd97aaabd706a173714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 09/18] fix: design must discard filters with a failed
 inversion

---
 empymod/scripts/fdesign.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index 485e6f6..6b94086 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -1313,7 +1313,9 @@ def _get_min_val(spaceshift, *params):
             # consistent.
 
         # Depending on cvar, store minimum amplitude or 1/maxr
-        if cvar == 'amp':
+        if np.all(rhs == 0) or np.all(np.isnan(rhs)):
+            min_val0 = np.inf  # useless for all transforms, not just this one
+        elif cvar == 'amp':
             min_val0 = np.abs(rhs[imin0])
         else:
             min_val0 = 1/r[imin0]
-- 
2.43.0


From ced6e2eeffcc076e4889e55bb7bd8efa3168e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 10/18] fix: save_input for an empty input

---
 empymod/io.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/empymod/io.py b/empymod/io.py
index 1a73d2b..35d608c 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -63,12 +63,11 @@ def save_input(fname, data, **kwargs):
 
         # For brevity yet readability, we create our custom formatted json,
         # where each model parameter is on a new line.
-        out = "{"
+        lines = []
         for k, v in data.items():
-            out += "\n  "
-            out += json.dumps({k: v}, cls=_ComplexNumPyEncoder)[1:-1]
-            out += ","
-        out = out[:-1] + "\n}"
+            lines.append("\n  ")
+            lines[-1] += json.dumps({k: v}, cls=_ComplexNumPyEncoder)[1:-1]
+        out = "{" + ",".join(lines) + "\n}"
 
         # Write it to disk.
         with open(fname, "w") as f:
-- 
2.43.0


From 044838910c5145d416806c0dec8417fb09a50bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 11/18] fix: load_data for complex json data with inf or nan in
 the imaginary part

---
 empymod/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/empymod/io.py b/empymod/io.py
index 35d608c..fb298aa 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -243,7 +243,10 @@ def load_data(fname):
         # If complex, re-create complex data.
         data = np.array(inpdat['data'])
         if 'complex' in inpdat['dtype']:
-            data = data[0, ...] + 1j*data[1, ...]
+            cdata = np.empty(data.shape[1:], dtype=np.complex128)
+            cdata.real = data[0, ...]
+            cdata.imag = data[1, ...]
+            data = cdata
 
     # Unknown, throw error
     else:
-- 
2.43.0


From 3858cbb27f13150c550bd2c353c0eeaa039865d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 12/18] fix: DigitalFilter.tofile must raise if it could not
 write the file

---
 empymod/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/filters.py b/empymod/filters.py
index 1ccdc39..63d7a55 100644
--- a/empymod/filters.py
+++ b/empymod/filters.py
@@ -115,14 +115,14 @@ class DigitalFilter:
         # Save filter base
         basefile = os.path.join(path, name + '_base.txt')
         with open(basefile, 'w') as f:
-            self.base.tofile(f, sep="\n")
+            f.write("\n".join(map(repr, self.base.tolist())))
 
         # Save filter coefficients
         for val in self.filter_coeff:
             if hasattr(self, val):
                 attrfile = os.path.join(path, name + '_' + val + '.txt')
                 with open(attrfile, 'w') as f:
-                    getattr(self, val).tofile(f, sep="\n")
+                    f.write("\n".join(map(repr, getattr(self, val).tolist())))
 
     def fromfile(self, path='filters'):
         r"""Load filter values from ASCII-files.
-- 
2.43.0


From 631f26982928dbd43838aa508a86e9be7239cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 13/18] fix: load_data must not return wrong values from a
 truncated txt file

---
 empymod/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/empymod/io.py b/empymod/io.py
index fb298aa..62bc8a1 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -219,6 +219,11 @@ def load_data(fname):
     # Load txt with NumPy.
     if fname.endswith(".txt"):
 
+        # Every line ends with a newline; if not, the file was truncated.
+        with open(fname, "rb") as f:
+            if not f.read().endswith(b"\n"):
+                raise ValueError(f"Truncated data file: '{fname}'.")
+
         # Read header for shape and dtype.
         meta = {}
         with open(fname, "r") as f:
-- 
2.43.0


From dcddf2b9118ba8e3d532dbbc84c69f124e85ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 14/18] fix: load_filter(full=True) must not hide read errors

---
 empymod/scripts/fdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index 6b94086..6cde18c 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -560,7 +560,7 @@ def load_filter(name, full=False, path='filters', filter_coeff=None):
             # Read data
             out = np.loadtxt(fullfile, ndmin=2)
 
-        except IOError:
+        except FileNotFoundError:
             return filt
 
         # Collect inversion-result tuple
-- 
2.43.0


From 783a62fbe550466c7fb1740a92d5bd087aa8adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:05 +0000
Subject: [PATCH 15/18] fix: load_data must read the txt header as utf-8 as it
 was written

---
 empymod/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/io.py b/empymod/io.py
index 62bc8a1..c794f98 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -226,7 +226,7 @@ def load_data(fname):
 
         # Read header for shape and dtype.
         meta = {}
-        with open(fname, "r") as f:
+        with open(fname, "r", encoding="utf-8") as f:
             for line in f:
                 if "data" in line:
                     break
-- 
2.43.0


From 4a7a11224c8a9311d2122cbfd3d396a0f9fe0881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:29 +0000
Subject: [PATCH 16/18] fix: design must discard a failed inversion also if it
 is not tested on its own

---
 empymod/scripts/fdesign.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index 6cde18c..3968f0c 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -1337,8 +1337,12 @@ def _get_min_val(spaceshift, *params):
     if verb > 1:
         log = _print_count(log)
 
+    # If any of the inversions failed (only zeros), the filter is useless; the
+    # failed transform is not necessarily part of fC, or jointly used (j2).
+    failed = not all(np.any(getattr(dlf, c)) for c in dlf.filter_coeff)
+
     # If there is no point with rel_error < error (imin=0) it returns np.inf.
-    return np.where(imin == 0, np.inf, min_val)
+    return np.where(imin == 0 or failed, np.inf, min_val)
 
 
 @np.errstate(all='ignore')
-- 
2.43.0


From 934f6410e455dfcc16f06d586865b5e42fe283a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 17/18] fix: save_data must keep the info on one line of the
 txt header

An info with a line break resulted in a file that load_data cannot read.
---
 empymod/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/io.py b/empymod/io.py
index c794f98..7f03177 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -174,6 +174,7 @@ def save_data(fname, data, **kwargs):
 
             # Write meta data.
             for k, v in meta.items():
+                v = ' '.join(v.splitlines())  # One line per key.
                 f.write(f"# {k}:{' '+v if v else ''}\n")
 
             # write data.
-- 
2.43.0


From b5c758c2e27284daaf02e3cba4edd6d1720bf3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 18/18] fix: save_input must not store an own filter under the
 name of a built-in one

---
 empymod/io.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/empymod/io.py b/empymod/io.py
index 7f03177..34a420b 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -284,6 +284,18 @@ class _ComplexNumPyEncoder(json.JSONEncoder):
         if isinstance(obj, np.ndarray):
             return obj.tolist()
         if isinstance(obj, filters.DigitalFilter):
+            # Only the name is stored; it must not stand for another filter.
+            known = [getattr(f, obj.name) for f in
+                     (filters.Hankel(), filters.Fourier())
+                     if obj.name in f.available]
+            same = [all(np.array_equal(getattr(obj, c, None),
+                                       getattr(f, c, None))
+                        for c in ['base', *obj.filter_coeff]) for f in known]
+            if known and not any(same):
+                raise ValueError(
+                    f"Only the name of a filter is stored, but '{obj.name}' "
+                    "is the name of a different, built-in filter."
+                )
             return obj.name
 
         # Let the base class default method raise the TypeError.
-- 
2.43.0

