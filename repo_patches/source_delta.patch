From 6a065cd47b83e25d5b747e437d117499a613017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 01/12] fix: make the package importable with docstrings
 stripped (python -OO)

---
 src/nvector/_info.py    | 12 ++++++------
 src/nvector/core.py     |  4 ++--
 src/nvector/objects.py  |  4 ++--
 src/nvector/rotation.py |  4 ++--
 src/nvector/util.py     |  4 ++--
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/nvector/_info.py b/src/nvector/_info.py
index 4a5131f..73a9b70 100644
--- a/src/nvector/_info.py
+++ b/src/nvector/_info.py
@@ -8,14 +8,14 @@ from nvector import (_intro,
 __doc__ = (  # @ReservedAssignment
     """Introduction to nvector
 =======================
-""" + _intro.__doc__  # @UndefinedVariable @ReservedAssignment
-    + _documentation.__doc__  # @UndefinedVariable
-    + _installation.__doc__  # @UndefinedVariable
-    + _examples_object_oriented.__doc__
+""" + (_intro.__doc__ or '')  # @UndefinedVariable @ReservedAssignment
+    + (_documentation.__doc__ or '')  # @UndefinedVariable
+    + (_installation.__doc__ or '')  # @UndefinedVariable
+    + (_examples_object_oriented.__doc__ or '')
     + """Acknowledgements
 ================
-""" + _acknowledgements.__doc__  # @UndefinedVariable
-    + _images.__doc__)  # @UndefinedVariable
+""" + (_acknowledgements.__doc__ or '')  # @UndefinedVariable
+    + (_images.__doc__ or ''))  # @UndefinedVariable
 
 
 if __name__ == '__main__':
diff --git a/src/nvector/core.py b/src/nvector/core.py
index 9e14c76..44c3922 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -848,10 +848,10 @@ def mean_horizontal_position(n_EB_E):
 
 
 _odict = globals()
-__doc__ = (__doc__  # @ReservedAssignment
+__doc__ = ((__doc__ or '')  # @ReservedAssignment
            + _make_summary(dict((n, _odict[n]) for n in __all__))
            + 'License\n-------\n'
-           + _license.__doc__)
+           + (_license.__doc__ or ''))
 
 
 if __name__ == "__main__":
diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index b32072f..f9fdbad 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1549,10 +1549,10 @@ def _default_frame(frame):
 
 
 _ODICT = globals()
-__doc__ = (__doc__  # @ReservedAssignment
+__doc__ = ((__doc__ or '')  # @ReservedAssignment
            + _make_summary(dict((n, _ODICT[n]) for n in __all__))
            + 'License\n-------\n'
-           + _license.__doc__)
+           + (_license.__doc__ or ''))
 
 
 if __name__ == "__main__":
diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index 5c963d7..ca58864 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -511,10 +511,10 @@ def n_E_and_wa2R_EL(n_E, wander_azimuth, R_Ee=None):
 
 
 _odict = globals()
-__doc__ = (__doc__  # @ReservedAssignment
+__doc__ = ((__doc__ or '')  # @ReservedAssignment
            + _make_summary(dict((n, _odict[n]) for n in __all__))
            + 'License\n-------\n'
-           + _license.__doc__)
+           + (_license.__doc__ or ''))
 
 
 if __name__ == "__main__":
diff --git a/src/nvector/util.py b/src/nvector/util.py
index f3417b5..9493534 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -511,10 +511,10 @@ def unit(vector, norm_zero_vector=1):
 
 
 _odict = globals()
-__doc__ = (__doc__  # @ReservedAssignment
+__doc__ = ((__doc__ or '')  # @ReservedAssignment
            + _make_summary(dict((n, _odict[n]) for n in __all__))
            + 'License\n-------\n'
-           + _license.__doc__)
+           + (_license.__doc__ or ''))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From d1d7091f1b3e2a0a3406755d7fcb21c28b151831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 02/12] fix: E_rotation returns a matrix of the caller's own,
 not the library's table entry

---
 src/nvector/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index ca58864..d5af0db 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -80,7 +80,7 @@ def E_rotation(axes='e'):
     The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
     <www.navlab.net/Publications/A_Nonsingular_Horizontal_Position_Representation.pdf>`_
     """
-    return E_ROTATION_MATRIX[axes]
+    return E_ROTATION_MATRIX[axes].copy()
 
 
 def R2xyz(R_AB):
-- 
2.43.0


From 5cce8ce175a61c6409b7c6705e7099f17f0a7218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 03/12] fix: submodules are reachable from the package when an
 earlier import was cut short

---
 src/nvector/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nvector/__init__.py b/src/nvector/__init__.py
index 0d8967a..2ba1a9e 100644
--- a/src/nvector/__init__.py
+++ b/src/nvector/__init__.py
@@ -4,6 +4,9 @@ from .util import *
 from .rotation import *
 from .core import *
 from .objects import *
+# Bind the submodules by name: a submodule that an earlier, interrupted import has already
+# loaded is not bound to the package by the import system.
+from . import core, license, objects, rotation, util
 
 
 __version__ = "0.7.7dev0"
-- 
2.43.0


From 4991bd93d4c2e96ef6f4fa9175d84886028ce43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 04/12] fix: use_docstring no longer swallows MemoryError and
 timeouts raised during import

---
 src/nvector/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/_common.py b/src/nvector/_common.py
index 3a2adcd..b0bae0d 100644
--- a/src/nvector/_common.py
+++ b/src/nvector/_common.py
@@ -68,7 +68,7 @@ def use_docstring(docstring):
             try:
                 new_docstring = dedent(func_docstring).format(super=docstring)
                 func.__doc__ = new_docstring
-            except Exception:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 pass  # python 2 crashes if the docstring alreasy exists!
         return func
     return _doc
-- 
2.43.0


From 5a0ebb79aeed0eb54edeb1d24aaf563115f5ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 05/12] fix: the plot module works when cartopy is not
 installed or fails to load

---
 src/nvector/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/plot.py b/src/nvector/plot.py
index e392837..176fe66 100644
--- a/src/nvector/plot.py
+++ b/src/nvector/plot.py
@@ -7,7 +7,7 @@ from functools import partial
 try:
     import cartopy.feature as cpf
     import cartopy.crs as ccrs
-except OSError:
+except Exception:  # not installed or failed to load
     cpf = ccrs = None
 
 import matplotlib.pyplot as plt
-- 
2.43.0


From e811df026901fa6165d0cc3d99fe8a4acce2fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 06/12] fix: the release tool updates each file all-or-nothing

---
 build_package.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/build_package.py b/build_package.py
index 3954516..4e1ac28 100644
--- a/build_package.py
+++ b/build_package.py
@@ -26,6 +26,24 @@ INFO = importlib.import_module(PACKAGE_NAME+'._info','./src')
 LICENSE = importlib.import_module(PACKAGE_NAME+'.license','./src')
 
 
+def write_text(filename, text):
+    """Writes text to filename, which is either left as it was or completely updated."""
+    filename = os.path.realpath(filename)
+    tmp_name = filename + '.tmp'
+    try:
+        with open(tmp_name, "w") as fid:
+            fid.write(text)
+            fid.flush()
+            os.fsync(fid.fileno())
+        if os.path.exists(filename):
+            shutil.copymode(filename, tmp_name)
+        os.replace(tmp_name, filename)
+    except BaseException:
+        if os.path.exists(tmp_name):
+            os.remove(tmp_name)
+        raise
+
+
 def remove_previous_build():
     """Removes ./dist, ./build, ./docs/_build, and ./src/{}.egg-info directories.
     """.format(PACKAGE_NAME)
@@ -78,8 +96,7 @@ References
            <https://nvector.readthedocs.io/en/v0.7.6>`_
 """
     filename = os.path.join(ROOT, "README.rst")
-    with open(filename, "w") as fid:
-        fid.write(readme_txt)
+    write_text(filename, readme_txt)
 
 
 def set_package(version):
@@ -95,14 +112,12 @@ def set_package(version):
                           '__version__ = "{}"'.format(version),
                           text, re.M)  # @UndefinedVariable
 
-        with open(filename, "w") as fid:
-            fid.write(new_text)
+        write_text(filename, new_text)
 
 
 def update_license():
     filename = os.path.join(ROOT, "LICENSE.txt")
-    with open(filename, "w") as fid:
-        fid.write(LICENSE.__doc__)
+    write_text(filename, LICENSE.__doc__)
 
 
 class ChangeDir:
-- 
2.43.0


From 1e2e47743f87b49b45343d2f0a79149293e66436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 07/12] fix: interpolation smooths the samples in order of time

---
 src/nvector/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 44c3922..a511577 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -358,6 +358,8 @@ def _interp_vectors(t_i, t, nvectors, kind, window_length, polyorder, mode, cval
     if window_length > 0:
         window_length = window_length + (window_length + 1) % 2 # make sure it is an odd integer
         options = dict(axis=1, mode=mode, cval=cval)
+        order = np.argsort(t, kind='mergesort')  # smooth the samples in order of time
+        t, nvectors = np.asarray(t)[order], nvectors[:, order]
         normals = savgol_filter(nvectors, window_length, polyorder, **options)
     else:
         normals = nvectors
-- 
2.43.0


From 74b39e3f5f293b10cff504ac2a7a6f457547eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 08/12] fix: paired batches give one result per entry in
 great-circle functions

---
 src/nvector/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index a511577..3397db4 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -354,6 +354,11 @@ def n_EA_E_and_p_AB_E2n_EB_E(n_EA_E, p_AB_E, z_EA=0, a=6378137, f=1.0 / 298.2572
     return n_EB_E, z_EB
 
 
+def _column_dot(a, b):
+    """Returns the dot product of each column of a with the same column of b."""
+    return np.sum(np.transpose(a) * np.transpose(b), axis=-1)
+
+
 def _interp_vectors(t_i, t, nvectors, kind, window_length, polyorder, mode, cval):
     if window_length > 0:
         window_length = window_length + (window_length + 1) % 2 # make sure it is an odd integer
@@ -498,7 +503,7 @@ def intersect(path_a, path_b):
     # n_EC_E_tmp is one of two solutions, the other is -n_EC_E_tmp. Select
     # the one that is closet to n_EA1_E, by selecting sign from the dot
     # product between n_EC_E_tmp and n_EA1_E:
-    n_EC_E = np.sign(dot(n_EC_E_tmp.T, n_EA1_E)) * n_EC_E_tmp
+    n_EC_E = np.sign(_column_dot(n_EC_E_tmp, n_EA1_E)) * n_EC_E_tmp
     if np.any(np.isnan(n_EC_E)):
         warnings.warn('Paths are Equal. Intersection point undefined. '
                       'NaN returned.')
@@ -559,7 +564,7 @@ def cross_track_distance(path, n_EB_E, method='greatcircle', radius=6371009.0):
 
     """
     c_E = great_circle_normal(path[0], path[1])
-    sin_theta = -np.dot(c_E.T, n_EB_E).ravel()
+    sin_theta = -_column_dot(c_E, n_EB_E).ravel()
     if method[0].lower() == 'e':
         return _euclidean_cross_track_distance(sin_theta, radius)
     return _great_circle_cross_track_distance(sin_theta, radius)
@@ -673,7 +678,7 @@ def closest_point_on_great_circle(path, n_EB_E):
 
     c2 = cross(n_EB_E, c_E, axis=0)
     n_EC_E = unit(cross(c_E, c2, axis=0))
-    return n_EC_E * np.sign(dot(n_EC_E.T, n_EB_E))
+    return n_EC_E * np.sign(_column_dot(n_EC_E, n_EB_E))
 
 
 @use_docstring(_examples.get_examples_no_header([5], OO=False))
@@ -700,7 +705,7 @@ def great_circle_distance(n_EA_E, n_EB_E, radius=6371009.0):
 
     """
     sin_theta = norm(np.cross(n_EA_E, n_EB_E, axis=0), axis=0)
-    cos_theta = dot(n_EA_E.T, n_EB_E)
+    cos_theta = _column_dot(n_EA_E, n_EB_E)
     theta = np.arctan2(sin_theta, cos_theta).ravel()
     s_AB = theta * radius
 
-- 
2.43.0


From 5168eb42089bbfe3fa9a3a9560bcac54fd87f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 09/12] fix: one impossible depth in a batch does not spoil the
 whole batch

---
 src/nvector/objects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index f9fdbad..b93e598 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1280,6 +1280,8 @@ class FrameE(_Common):
         return s_ab, azimuth_a, azimuth_b
 
     def _inverse(self, lat_a, lon_a, lat_b, lon_b, z=0, outmask=None):
+        if not np.isfinite(z) or z >= self.a > 0:  # no ellipsoid at this depth
+            return np.nan, np.nan, np.nan
         geo = _Geodesic(self.a - z, self.f)
         result = geo.Inverse(lat_a, lon_a, lat_b, lon_b, outmask=outmask)
         return result['s12'], result['azi1'], result['azi2']
@@ -1353,6 +1355,8 @@ class FrameE(_Common):
         return latb, lonb, azimuth_b
 
     def _direct(self, lat_a, lon_a, azimuth, distance, z=0, outmask=None):
+        if not np.isfinite(z) or z >= self.a > 0:  # no ellipsoid at this depth
+            return np.nan, np.nan, np.nan
         geo = _Geodesic(self.a - z, self.f)
         result = geo.Direct(lat_a, lon_a, azimuth, distance, outmask=outmask)
         latb, lonb, azimuth_b = result['lat2'], result['lon2'], result['azi2']
-- 
2.43.0


From 1b81660086c6721f4d34d08706303e2bc828d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:35 +0000
Subject: [PATCH 10/12] fix: escape in the docstring of _base_angle made
 importing warn (or fail when warnings are errors)

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index b93e598..1231cc5 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -82,7 +82,7 @@ diff_positions = np.deprecate(delta_E, old_name='diff_positions', new_name='delt
 
 
 def _base_angle(angle_rad):
-    """Returns angle so it is between $-\pi$ and $\pi$"""
+    r"""Returns angle so it is between $-\pi$ and $\pi$"""
     return np.mod(angle_rad + np.pi, 2*np.pi) - np.pi
 
 
-- 
2.43.0


From 5e2d928672d3706906bc9ec14d433ba6e4f108dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:44 +0000
Subject: [PATCH 11/12] fix: array_to_list_dict replaced the arrays in the
 dictionary it was given by lists (and repr those in dict attributes)

---
 src/nvector/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 9493534..aafdb5e 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -91,8 +91,7 @@ def array_to_list_dict(data):
 
     """
     if isinstance(data, dict):
-        for key in data:
-            data[key] = array_to_list_dict(data[key])
+        data = dict((key, array_to_list_dict(value)) for key, value in data.items())
     elif isinstance(data, (list, tuple)):
         data = [array_to_list_dict(item) for item in data]
     else:
-- 
2.43.0


From d5453c5876ac56e6fbbb662564f5e4251058d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:10 +0000
Subject: [PATCH 12/12] fix: track_distance with a given radius gives one
 distance per entry of the path

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 1231cc5..5c94763 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -934,7 +934,7 @@ class GeoPath(object):
 
         distance_fun = euclidean_distance if method[:2] == "eu" else great_circle_distance
         distance = distance_fun(normal_a, normal_b, radius)
-        if np.ndim(radius) == 0:
+        if np.ndim(radius) == 0 and distance.size == 1:
             return distance[0]  # scalar track distance
         return distance
 
-- 
2.43.0

