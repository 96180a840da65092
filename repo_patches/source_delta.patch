From 599a1ebd9b5637dbeaba190b53fffc6dba47ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:59 +0000
Subject: [PATCH 01/21] fix: Plotting1288 keeps every test it is given

Only the last test was appended, outside the loop.
---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 3ab6bb9..5344324 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -848,7 +848,7 @@ class Plotting1288(object):
         for test in tests:
             if not getattr(test, 'id', False):
                 test.id = id(test)
-        self.tests.append(test)
+            self.tests.append(test)
 
     def plot(self, *plots):
         """Plot EMVA1288 plots
-- 
2.43.0


From 49c976fd45822cc025a9f1c4af3d66bb840c7a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:59 +0000
Subject: [PATCH 02/21] fix: round_significant does not use the removed np.int

---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 8464780..246c055 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -512,7 +512,7 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     if v == 0.0:
         return 0.0
-    return round(v, sig - np.int(np.floor(np.log10(np.abs(v)))) - 1)
+    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
 round_array = np.vectorize(round_significant)
-- 
2.43.0


From ca32a7005e61e879e996c0f46c93776a4651921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:59 +0000
Subject: [PATCH 03/21] fix: xml_to_dict can parse a string

---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 246c055..ac653fb 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -462,7 +462,7 @@ def xml_to_dict(xml):
         if os.path.isfile(xml):
             tree = etree.parse(xml)
         else:
-            tree = etree.ElementTree.fromstring(xml)
+            tree = etree.ElementTree(etree.fromstring(xml))
     except:
         print('Problems loading XML')
         return None
-- 
2.43.0


From 212077e29ba16ef92c7ace3005967c1e8a69ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 04/21] fix: xml_to_dict reads empty arrays

---
 src/emva1288/process/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index ac653fb..b7950f3 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -490,7 +490,8 @@ def xml_to_dict(xml):
         for methodname, value in method.items():
             if 'data' in value:
                 for data in value['data']:
-                    v = value['data'][data]
+                    # empty arrays have no text
+                    v = value['data'][data] or ''
                     v = v.strip()
                     v = v.split()
                     d[section][methodname]['data'][data] = np.asarray(v, dtype=np.float64)
-- 
2.43.0


From 7b6ac4e2d2beb711f1543fb30d3a8fc35b2f135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 05/21] fix: compare_xml accepts values undefined on both sides

None, nan and infinite values raised inside the comparison or never
compared equal, arrays of different length could compare equal and
every error was reported as a difference.
---
 src/emva1288/process/routines.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index b7950f3..111ed36 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -513,10 +513,12 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     if v == 0.0:
         return 0.0
+    if not np.isfinite(v):
+        return v
     return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
-round_array = np.vectorize(round_significant)
+round_array = np.vectorize(round_significant, otypes=[np.float64])
 
 
 def compare_xml(x1, x2, filename=None):
@@ -573,10 +575,9 @@ def compare_xml(x1, x2, filename=None):
             # if both present only values will be taken in count for comparison
             # If both are values
             if v1 is not None and v2 is not None:
-                try:
-                    r = (round_significant(v1) - round_significant(v2)) == 0.0
-                except:
-                    r = False
+                # undefined (nan) on both sides is the same value
+                r = np.array_equal(round_significant(v1),
+                                   round_significant(v2), equal_nan=True)
                 t1 = v1
                 t2 = v2
 
@@ -592,19 +593,19 @@ def compare_xml(x1, x2, filename=None):
                     r = False
                 else:
                     # loop throught the keys
+                    r = True
                     for k in k1:
-                        try:
-                            r = np.max(np.abs(round_array(a1[k]) -
-                                              round_array(a2[k]))) == 0.0
-                        except:
-                            r = False
-
+                        r = np.array_equal(round_array(a1[k]),
+                                           round_array(a2[k]), equal_nan=True)
                         if not r:
                             break
             else:
                 t1 = str(v1)
                 t2 = str(v2)
-                r = False
+                # undefined on both sides, there is nothing that differs
+                r = (methodname in m1 and methodname in m2 and
+                     v1 is None and v2 is None and
+                     a1 is None and a2 is None)
 
             s += '{0:<20}{1:<20}'.format(t1, t2)
             if r:
-- 
2.43.0


From 7248ab42c143943d68d4bae3e236bf9ed2d92146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 06/21] fix: Report1288 does not modify the dictionaries it is
 given

The paths of the uploaded files were written in the caller's
dictionaries, a second report with them failed. Adding the same
operation point dictionary twice overwrote the first one.
---
 src/emva1288/report/report.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index a196c0a..b8b0202 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -1,3 +1,4 @@
+from copy import copy
 import jinja2
 import os
 import shutil
@@ -202,9 +203,10 @@ class Report1288(object):
 
         self.renderer = self.template_renderer()
         self.ops = []
-        self.marketing = marketing or info_marketing()
-        self.basic = basic or info_basic()
-        self.setup = setup or info_setup()
+        # copies, the caller can use its dictionaries for another report
+        self.marketing = copy(marketing) or info_marketing()
+        self.basic = copy(basic) or info_basic()
+        self.setup = copy(setup) or info_setup()
         self.cover_page = cover_page
         self._make_dirs(outdir)
 
@@ -373,6 +375,7 @@ class Report1288(object):
                :class:`~emva1288.process.results.Results1288` class.
         """
         n = len(self.ops) + 1
+        op = copy(op)
         op['id'] = 'OP%d' % (n)
         if not op['name']:
             op['name'] = op['id']
-- 
2.43.0


From 788bd80331ada18454a2e2257e0efa78429b4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 07/21] fix: the vendor in the page header is a basic
 information

---
 src/emva1288/report/templates/emvadatasheet.sty | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/templates/emvadatasheet.sty b/src/emva1288/report/templates/emvadatasheet.sty
index a531b4c..5f28f3a 100644
--- a/src/emva1288/report/templates/emvadatasheet.sty
+++ b/src/emva1288/report/templates/emvadatasheet.sty
@@ -22,7 +22,7 @@
 % Header
 \fancyhead{}%
 \fancyhead[LO,LE]{\includegraphics[height=12mm]{files/EMVA1288Logo.pdf}}
-\fancyhead[C]{\textbf{%{{ marketing.vendor %}} \, %{{ basic.model|missing %}}}}
+\fancyhead[C]{\textbf{%{{ basic.vendor|missing %}} \, %{{ basic.model|missing %}}}}
 \fancyhead[RE,RO]{\includegraphics[height=12mm]{%{{ marketing.logo %}}}}
 \renewcommand{\headrulewidth}{0.5pt}
 
-- 
2.43.0


From cc63071d1a61f6cf1190493a9850cfdf71d87431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 08/21] fix: undefined results are shown as missing in the
 report

Only the np.nan object itself was recognised and the nonuniformities,
undefined for a negative variance, were not filtered.
---
 src/emva1288/report/report.py        | 10 ++++++++--
 src/emva1288/report/templates/op.tex | 16 ++++++++--------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index b8b0202..fb66c47 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -240,16 +240,22 @@ class Report1288(object):
             comment_end_string='%#}',
             loader=jinja2.FileSystemLoader(dirname))
 
+        def is_missing(value):
+            # None, undefined in the template or any kind of nan
+            if value is None or isinstance(value, jinja2.Undefined):
+                return True
+            return isinstance(value, (float, np.floating)) and np.isnan(value)
+
         def missingnumber(value, precision):
             # Filter for missing numbers
-            if value in (None, np.nan):
+            if is_missing(value):
                 return '-'
             t = '{:.%df}' % precision
             return t.format(value)
 
         def missingfilter(value, default='-'):
             # General filter for missing objects that are not numbers
-            if value in (None, np.nan):
+            if is_missing(value):
                 return default
             return value
 
diff --git a/src/emva1288/report/templates/op.tex b/src/emva1288/report/templates/op.tex
index d940bb7..5893d20 100644
--- a/src/emva1288/report/templates/op.tex
+++ b/src/emva1288/report/templates/op.tex
@@ -111,35 +111,35 @@
 \multicolumn{3}{l}{\textbf{Spatial Nonuniformities}} \\
 
 %{{ op.results.spatial.DSNU1288.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288.value %}} &
+%{{ op.results.spatial.DSNU1288.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288.unit %}} \\
 
 %{{ op.results.spatial.DSNU1288_row.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288_row.value %}} &
+%{{ op.results.spatial.DSNU1288_row.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288_row.unit %}} \\
 
 %{{ op.results.spatial.DSNU1288_col.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288_col.value %}} &
+%{{ op.results.spatial.DSNU1288_col.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288_col.unit %}} \\
 
 %{{ op.results.spatial.DSNU1288_pixel.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288_pixel.value %}} &
+%{{ op.results.spatial.DSNU1288_pixel.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288_pixel.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288.value %}} &
+%{{ op.results.spatial.PRNU1288.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288_row.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288_row.value %}} &
+%{{ op.results.spatial.PRNU1288_row.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288_row.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288_col.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288_col.value %}} &
+%{{ op.results.spatial.PRNU1288_col.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288_col.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288_pixel.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288_pixel.value %}} &
+%{{ op.results.spatial.PRNU1288_pixel.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288_pixel.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{Linearity error}} \\
-- 
2.43.0


From 06aed349f1e97a93fc5d7cf3902e138951088fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 09/21] fix: Qe does not modify the array it is given

---
 src/emva1288/camera/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 5d6d166..b1ac12c 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -234,7 +234,8 @@ class Qe(object):
                              (self._height, self._width, len(self._w)))
 
         if filter is not None:
-            self._qe *= filter
+            # not in place, qe belongs to the caller
+            self._qe = self._qe * filter
 
     @property
     def w(self):
-- 
2.43.0


From a86b5acbced38a92f0d2a692b0e3ae351fa29374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 10/21] fix: qe with wrong dimensions raises the intended
 ValueError

---
 src/emva1288/camera/routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index b1ac12c..f63d5cc 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -230,8 +230,8 @@ class Qe(object):
 
         if self._qe.shape != (self._height, self._width, len(self._w)):
             raise ValueError('qe dimensions mismatch %s != %s' %
-                             self._qe.shape,
-                             (self._height, self._width, len(self._w)))
+                             (self._qe.shape,
+                              (self._height, self._width, len(self._w))))
 
         if filter is not None:
             # not in place, qe belongs to the caller
-- 
2.43.0


From 967087b988212ba67f8bbf1e2949ca83abdce9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 11/21] fix: array_tile returns exactly the requested size

---
 src/emva1288/camera/routines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index f63d5cc..bb5ca7e 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -201,7 +201,9 @@ def get_bayer_filter(t00, t01, t10, t11, width, height, w):
 def array_tile(array, height, width):
     h, w = ((array.shape[:2]) if array.ndim == 3 else (1, array.shape[-1])
             if array.ndim == 2 else (1, 1))
-    return np.tile(array, (int(height/h), int(width/w), 1))
+    # enough repetitions to cover the size, when it is not a multiple
+    tile = np.tile(array, (-(-height // h), -(-width // w), 1))
+    return tile[:height, :width]
 
 
 def poisson(x, loc, mu=1000):
-- 
2.43.0


From 5a995504d3fbb7aadf7ff87fe628bdd2508c72b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 12/21] fix: bad_pixel uses the full well when no value is
 given

---
 src/emva1288/camera/bad_images.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index 0249389..0828570 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -19,7 +19,7 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     """
     # TODO: add error message if num_bad_pixel is higger than pixel_num
     # Set the bad value at the Full well capacity for the camera if 1.
-    bad_value = bad_value * cam._u_esat
+    bad_value = (1 if bad_value is None else bad_value) * cam._u_esat
     # Count the number of pixel in the camera
     pixel_num = cam.height * cam.width
     # Select the number of bad pixel in a 1D with number
-- 
2.43.0


From b02706aec8d095849a730f62dc7e549642a76041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 13/21] fix: bad_pixel draws distinct pixels from the camera's
 generator

The same pixel could be drawn more than once, and the seed of the
camera had no effect on the positions.
---
 src/emva1288/camera/bad_images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index 0828570..690a949 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -24,7 +24,8 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     pixel_num = cam.height * cam.width
     # Select the number of bad pixel in a 1D with number
     # for they futur position.
-    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel)
+    bad_pixel_position = cam._rng.choice(pixel_num, num_bad_pixel,
+                                         replace=False)
     # change the position in 1D to 2D.
     for i in bad_pixel_position:
         # Change the DSNU of the camera with the bad values
-- 
2.43.0


From 90f3fe058a4489722985107eb7e1e97b6a8a1866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 14/21] fix: the descriptor file is closed, its decoding error
 is raised

UnicodeDecodeError can not be built from a message only.
---
 src/emva1288/process/parser.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/emva1288/process/parser.py b/src/emva1288/process/parser.py
index 6747dde..bb8f2e0 100755
--- a/src/emva1288/process/parser.py
+++ b/src/emva1288/process/parser.py
@@ -224,8 +224,6 @@ class ParseEmvaDescriptorFile(object):
         Load a file, split by lines removing the comments (starts with #)
         """
         self.log.info('Opening ' + filename)
-        f = open(filename, 'r')
-
         # To add location when opening images
         # If no path was passed as kwarg, set it to the filename path
         if self._path is None:
@@ -233,9 +231,11 @@ class ParseEmvaDescriptorFile(object):
 
         # get the lines and strip them if they are not comments
         try:
-            self._lines = [x.strip() for x in f.readlines() if x.strip() and
-                           not x.strip().startswith('#')]
-        except UnicodeDecodeError:  # pragma: no cover
+            with open(filename, 'r') as f:
+                self._lines = [x.strip() for x in f.readlines() if x.strip()
+                               and not x.strip().startswith('#')]
+        except UnicodeDecodeError as e:  # pragma: no cover
             # If there is an unknown character in the file, speak it!
-            raise UnicodeDecodeError("File: '%s', has non-utf8 characters."
-                                     "Find them and kill them!" % filename)
+            e.reason = ("File: '%s', has non-utf8 characters."
+                        "Find them and kill them!" % filename)
+            raise
-- 
2.43.0


From aaa868602c09c87efcc6963d937b73d15b6f804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 15/21] fix: array_tile repeats a pattern of one row to the
 requested width

The last dimension are the wavelengths, the columns are the first.
---
 src/emva1288/camera/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index bb5ca7e..d248c94 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -199,7 +199,7 @@ def get_bayer_filter(t00, t01, t10, t11, width, height, w):
 
 
 def array_tile(array, height, width):
-    h, w = ((array.shape[:2]) if array.ndim == 3 else (1, array.shape[-1])
+    h, w = ((array.shape[:2]) if array.ndim == 3 else (1, array.shape[0])
             if array.ndim == 2 else (1, 1))
     # enough repetitions to cover the size, when it is not a multiple
     tile = np.tile(array, (-(-height // h), -(-width // w), 1))
-- 
2.43.0


From c4770568ef9077eda78dfeffab1da18f51cc5960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 16/21] fix: PointsGenerator honours the limits, gain and
 offset it is given

The radiances were always replaced by the default ones, gain and black
reference were ignored for the exposure variation and 0 was taken as
not given.
---
 src/emva1288/camera/points_generator.py | 30 +++++++++++++++----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index 6cbe857..549be29 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -53,13 +53,19 @@ class PointsGenerator:
         """
         self._cam = cam
         self._steps = steps
-        self._exposure_min = exposure_min or self._cam.exposure_min
-        self._exposure_max = exposure_max or self._cam.exposure_max
+        self._exposure_min = exposure_min
+        if exposure_min is None:
+            self._exposure_min = self._cam.exposure_min
+        self._exposure_max = exposure_max
+        if exposure_max is None:
+            self._exposure_max = self._cam.exposure_max
         self._exposure = exposure_fixed
         self._radiance_min = radiance_min
         self._radiance_max = radiance_max
-        self._gain = gain or self._cam.K
-        self._blackref = blackref or self._cam.blackoffset
+        if gain is not None:
+            self._cam.K = gain
+        if blackref is not None:
+            self._cam.blackoffset = blackref
         if self._exposure is None:
             # Get radiance for saturation at maximal exposure time
             # Only if it is for an exposure time variation test
@@ -69,12 +75,12 @@ class PointsGenerator:
         else:
             # get radiances for radiation variation
             self._cam.exposure = self._exposure
-            self._cam.K = self._gain
-            self._cam.blackoffset = self._blackref
-            m = self._cam.grab(0).mean()
-            target = (self._cam.img_max - m) / self._steps + m
-            self._radiance_min = self._cam.get_radiance_for(mean=target)
-            self._radiance_max = self._cam.get_radiance_for()
+            if self._radiance_min is None:
+                m = self._cam.grab(0).mean()
+                target = (self._cam.img_max - m) / self._steps + m
+                self._radiance_min = self._cam.get_radiance_for(mean=target)
+            if self._radiance_max is None:
+                self._radiance_max = self._cam.get_radiance_for()
 
         # By default, an exposure time variation data points
         # If exposure fixed is given, it is photons variation
@@ -104,8 +110,8 @@ class PointsGenerator:
             # only one exposure time
             rad_i = np.ones((self._cam._height, self._cam._width,
                             len(self._cam.qe.w)))
-            factors = np.linspace(self._radiance_min.mean(),
-                                  self._radiance_max.mean(),
+            factors = np.linspace(np.mean(self._radiance_min),
+                                  np.mean(self._radiance_max),
                                   self._steps)
             radiances = [rad_i * factor for factor in factors]
             # round to only have one decimal
-- 
2.43.0


From f34bfdbe3a4935d84972b5fc437d02f02cafa787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 17/21] fix: the histograms count only the pixels that are not
 masked

numpy.histogram ignores the mask.
---
 src/emva1288/process/results.py  | 4 ++--
 src/emva1288/process/routines.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 051689f..89bea86 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -1164,7 +1164,7 @@ class Results1288(object):
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
@@ -1219,7 +1219,7 @@ class Results1288(object):
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
 
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 111ed36..356afb6 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -250,7 +250,8 @@ def GetFrecs(fft):
 
 
 def Histogram1288(img, Qmax):
-    y = np.ravel(img)
+    # the masked pixels do not count
+    y = np.ma.compressed(img)
 
     ymin = np.min(y)
     ymax = np.max(y)
-- 
2.43.0


From da03b478a36640683999873cd5d745e7795402cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 18/21] fix: PRNU histograms average the dark images by their
 own number

The sums of different numbers of images were subtracted.
---
 src/emva1288/process/results.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 89bea86..d8274af 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -9,6 +9,7 @@ values.
 """
 
 import logging
+import math
 import numpy as np
 from emva1288.process import routines
 from scipy.ndimage import convolve
@@ -1110,6 +1111,15 @@ class Results1288(object):
         return (np.sqrt(self.s_2_y_pixel - self.s_2_y_pixel_dark) * 100 /
                 (self.spatial['avg_mean'] - self.spatial['avg_mean_dark']))
 
+    def _prnu_image(self):
+        # Bright minus dark average image, upscaled to have only integers
+        L = int(self.spatial['L'])
+        L_dark = int(self.spatial['L_dark'])
+        scale = L * L_dark // math.gcd(L, L_dark)
+        y = (self.spatial['sum'] * (scale // L) -
+             self.spatial['sum_dark'] * (scale // L_dark))
+        return y, scale
+
     @property
     def histogram_PRNU(self):
         """PRNU histogram.
@@ -1125,14 +1135,14 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, scale = self._prnu_image()
         # Applying the filter on the image
         data = routines.high_pass_filter(y, 5)
         y = data['img']
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (scale * data['multiplicator'])
 
         return h
 
@@ -1151,7 +1161,7 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, scale = self._prnu_image()
         data = routines.high_pass_filter(y, 5)
         y = data['img']
         # For the accumulated histogram substract the mean
@@ -1159,7 +1169,7 @@ class Results1288(object):
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (scale * data['multiplicator'])
 
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
-- 
2.43.0


From 617c1353c5c56e4606158413a7e2530ad1ff2d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 19/21] fix: the plots average the dark images by their own
 number

---
 src/emva1288/process/plotting.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 5344324..d6c3a51 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -378,8 +378,8 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
     def plot(self, test):
         ax = self.ax
 
-        data = (test.spatial['sum'] - test.spatial['sum_dark'])
-        data = data / test.spatial['L']
+        data = (test.spatial['sum'] / test.spatial['L'] -
+                test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
 
         spectrogram = routines.FFT1288(data) / data_mean
@@ -416,7 +416,7 @@ class PlotHorizontalSpectrogramDSNU(Emva1288Plot):
         ax = self.ax
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
@@ -447,8 +447,8 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
 
     def plot(self, test):
         ax = self.ax
-        data = test.spatial['sum'] - test.spatial['sum_dark']
-        data = data / test.spatial['L']
+        data = (test.spatial['sum'] / test.spatial['L'] -
+                test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
         spectrogram = routines.FFT1288(data, rotate=True) / data_mean
 
@@ -485,7 +485,7 @@ class PlotVerticalSpectrogramDSNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        rotate=True,
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
@@ -691,9 +691,8 @@ class ProfileBase(Emva1288Plot):
         ax = self.ax
         ax2 = self.ax2
 
-        L = test.spatial['L']
-        bimg = (test.spatial['sum'] - test.spatial['sum_dark']) / L
-        dimg = test.spatial['sum_dark'] / L
+        dimg = test.spatial['sum_dark'] / test.spatial['L_dark']
+        bimg = test.spatial['sum'] / test.spatial['L'] - dimg
         profiles = self.get_profiles(bimg, dimg)
 
         # to keep the lines number for legend
-- 
2.43.0


From 8207bb3aea64a803d29e0598ef95de6deb88e980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:05 +0000
Subject: [PATCH 20/21] fix: the radiance for a grey value counts the thermal
 electrons of the given exposure

---
 src/emva1288/camera/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 5dd0bc5..c0ebcd2 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -390,7 +390,8 @@ class Camera(object):
             mean = self.img_max
         if not exposure:
             exposure = self.exposure
-        ud = self._u_therm()
+        # thermal electrons during that exposure, not the current one
+        ud = self._u_i() * exposure / (10 ** 9)
         ue = ((mean / self.K) - ud)/len(self._qe.w)
         ue *= np.ones(len(self._qe.w))
         up = np.zeros((self.height, self.width, len(self._qe.w)))
-- 
2.43.0


From e403da632680cd750d4326e237aff7986666d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 21/21] fix: load_image closes the image file when it cannot be
 read

---
 src/emva1288/process/routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 356afb6..e5dc207 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -22,8 +22,8 @@ SIGNIFICANT_DIGITS = 7
 
 
 def load_image(fname):
-    img = Image.open(fname)
-    img = np.asarray(img.split()[0])
+    with Image.open(fname) as f:
+        img = np.asarray(f.split()[0])
     # img = cv2.imread(fname, cv2.CV_LOAD_IMAGE_UNCHANGED)
     # img = cv2.split(img)[0]
     return img
-- 
2.43.0

