From 168fdb84b4bf037ad3a62d725757655422a67e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 01/19] fix: do not accumulate deformations in the deformation
 field

'get_deformed_point()' adds to the row of the field passed to it. The
deformed geometry hence depended on how many points had been computed
before, so a flight state got another mesh (and another result) depending
on its position in the list of states.
---
 src/lib/pytornado/objects/aircraft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 86b5a87..bb1bbec 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -977,7 +977,8 @@ class WingSegment:
         if def_field is None:
             return point
 
-        def_point = get_deformed_point(point, def_field)
+        # Pass a copy: 'get_deformed_point()' modifies the rows of the field it is given
+        def_point = get_deformed_point(point, def_field.copy())
         return def_point
 
     def generate(self):
-- 
2.43.0


From 039e4e3afd56b510c105bdd6e6ea5238cdd1d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 02/19] fix: report a linear system which could not be solved

The status returned by LAPACK was ignored. With a singular downwash
matrix the right-hand side was used as circulation and results were
written as if nothing had happened.
---
 src/lib/pytornado/aero/vlm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 5381fdd..a10467c 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -472,9 +472,12 @@ def solver(vlmdata):
     """
 
     logger.info("Solving linear system...")
-    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], _ \
+    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], info \
         = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)
 
+    if info != 0:
+        raise RuntimeError(f"Linear system could not be solved (LAPACK 'dgesv' info: {info})")
+
 ########
 ########
 ########
-- 
2.43.0


From 0fa16eb834ca6369e35ec1373fd3072150c18634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 03/19] fix: do not remove hidden settings from the instance
 when saving

'save()' cleaned the live dictionary. Any later use of the settings
instance failed with a 'KeyError' or ran without its hidden settings.
---
 src/lib/pytornado/fileio/native/settings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/settings.py b/src/lib/pytornado/fileio/native/settings.py
index 342814b..f701354 100644
--- a/src/lib/pytornado/fileio/native/settings.py
+++ b/src/lib/pytornado/fileio/native/settings.py
@@ -27,6 +27,7 @@ Functions for reading and writing of PyTornado execution settings file.
 Developed at Airinnova AB, Stockholm, Sweden.
 """
 
+from copy import deepcopy
 import logging
 import json
 from pathlib import Path
@@ -78,10 +79,11 @@ def save(settings):
     set_file = settings.paths('f_settings')
     logger.info(f"Saving settings to file '{truncate_filepath(set_file)}'...")
 
-    clean_dict(settings.settings)
+    # Hidden settings are not saved, but the settings instance must keep them
+    output = clean_dict(deepcopy(settings.settings))
 
     with open(set_file, 'w') as fp:
-        dump_pretty_json(settings.settings, fp)
+        dump_pretty_json(output, fp)
 
 
 def clean_dict(dictionary, to_del='_'):
-- 
2.43.0


From ef708ebea3b4e6569c75afc76825d8271f1e7447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 04/19] fix: save aircraft, state and settings files
 all-or-nothing

The existing file was truncated before the new content was serialised
and written. A full disk, an error while serialising, a cancellation or
a crash destroyed the user's model, and a concurrent load could see a
part of it.
---
 src/lib/pytornado/fileio/native/aircraft.py |  4 +--
 src/lib/pytornado/fileio/native/settings.py |  4 +--
 src/lib/pytornado/fileio/native/state.py    |  4 +--
 src/lib/pytornado/fileio/utils.py           | 38 +++++++++++++++++++++
 4 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index 54dbb8e..c99b94c 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -33,7 +33,7 @@ import json
 
 from commonlibs.logger import truncate_filepath
 
-from pytornado.fileio.utils import dump_pretty_json
+from pytornado.fileio.utils import dump_pretty_json, open_atomic
 from pytornado.objects.aircraft import Aircraft
 from pytornado.objects.settings import PATHS
 
@@ -201,5 +201,5 @@ def save(aircraft, settings):
 
         output['wings'].append(wing_entry)
 
-    with open(filepath, 'w') as fp:
+    with open_atomic(filepath) as fp:
         dump_pretty_json(output, fp)
diff --git a/src/lib/pytornado/fileio/native/settings.py b/src/lib/pytornado/fileio/native/settings.py
index f701354..88f0f35 100644
--- a/src/lib/pytornado/fileio/native/settings.py
+++ b/src/lib/pytornado/fileio/native/settings.py
@@ -35,7 +35,7 @@ from pathlib import Path
 from commonlibs.logger import truncate_filepath
 
 from pytornado.objects.settings import Settings
-from pytornado.fileio.utils import dump_pretty_json
+from pytornado.fileio.utils import dump_pretty_json, open_atomic
 
 logger = logging.getLogger(__name__)
 
@@ -82,7 +82,7 @@ def save(settings):
     # Hidden settings are not saved, but the settings instance must keep them
     output = clean_dict(deepcopy(settings.settings))
 
-    with open(set_file, 'w') as fp:
+    with open_atomic(set_file) as fp:
         dump_pretty_json(output, fp)
 
 
diff --git a/src/lib/pytornado/fileio/native/state.py b/src/lib/pytornado/fileio/native/state.py
index c7ece43..a8d1644 100644
--- a/src/lib/pytornado/fileio/native/state.py
+++ b/src/lib/pytornado/fileio/native/state.py
@@ -33,7 +33,7 @@ import json
 
 from commonlibs.logger import truncate_filepath
 
-from pytornado.fileio.utils import dump_pretty_json
+from pytornado.fileio.utils import dump_pretty_json, open_atomic
 from pytornado.objects.state import FlightState
 
 logger = logging.getLogger(__name__)
@@ -81,5 +81,5 @@ def save(state, settings):
     for key in ['aero']:
         output[key] = dict(getattr(state, key))
 
-    with open(state_file, 'w') as fp:
+    with open_atomic(state_file) as fp:
         dump_pretty_json(output, fp)
diff --git a/src/lib/pytornado/fileio/utils.py b/src/lib/pytornado/fileio/utils.py
index ea05c49..f99f669 100644
--- a/src/lib/pytornado/fileio/utils.py
+++ b/src/lib/pytornado/fileio/utils.py
@@ -26,8 +26,13 @@ Utils for reading and writing files
 Developed at Airinnova AB, Stockholm, Sweden.
 """
 
+from contextlib import contextmanager
 from functools import partial
 import json
+import os
+import shutil
+import uuid
+
 import numpy as np
 
 
@@ -49,6 +54,39 @@ class NDArrayEncoder(json.JSONEncoder):
 dump_pretty_json = partial(json.dump, cls=NDArrayEncoder, indent=4, separators=(',', ': '))
 
 
+@contextmanager
+def open_atomic(filepath):
+    """
+    Context manager to write a (text) file all-or-nothing
+
+    The data is written to a temporary file in the same directory, which then
+    replaces the target file. If an error occurs the target is left unchanged.
+
+    Args:
+        :filepath: Path of the file to write
+
+    Yields:
+        :fp: File object
+    """
+
+    filepath = os.path.realpath(filepath)  # Write through symbolic links
+    dirname, basename = os.path.split(filepath)
+    tmp_filepath = os.path.join(dirname, f".{basename}.{uuid.uuid4().hex}.tmp")
+
+    try:
+        with open(tmp_filepath, 'x') as fp:
+            yield fp
+        if os.path.exists(filepath):
+            shutil.copymode(filepath, tmp_filepath)
+        os.replace(tmp_filepath, filepath)
+    except BaseException:
+        try:
+            os.remove(tmp_filepath)
+        except OSError:
+            pass
+        raise
+
+
 def parse_str(entry, allow_char='-_'):
     """
     Strip undesired characters from a string
-- 
2.43.0


From fd21bfe1326330b8f24c5a1ceb98ae393d34948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 05/19] fix: save flight states such that they can be loaded
 again

---
 src/lib/pytornado/fileio/native/state.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/state.py b/src/lib/pytornado/fileio/native/state.py
index a8d1644..48d7ab7 100644
--- a/src/lib/pytornado/fileio/native/state.py
+++ b/src/lib/pytornado/fileio/native/state.py
@@ -34,7 +34,7 @@ import json
 from commonlibs.logger import truncate_filepath
 
 from pytornado.fileio.utils import dump_pretty_json, open_atomic
-from pytornado.objects.state import FlightState
+from pytornado.objects.state import FlightState, AIRSPEED, ALTITUDE, DENSITY, MACH
 
 logger = logging.getLogger(__name__)
 
@@ -76,10 +76,17 @@ def save(state, settings):
     state_file = settings.paths('f_state')
     logger.info(f"Writing flight state to file '{truncate_filepath(state_file)}'")
 
+    # Derived parameters are not written since only some combinations are valid
+    derived = set()
+    if state.aero[ALTITUDE] is not None:
+        derived.add(DENSITY)
+    if state.aero[MACH] is not None:
+        derived.add(AIRSPEED)
+
     output = {}
 
     for key in ['aero']:
-        output[key] = dict(getattr(state, key))
+        output[key] = {k: v for k, v in getattr(state, key).items() if v is not None and k not in derived}
 
     with open_atomic(state_file) as fp:
         dump_pretty_json(output, fp)
-- 
2.43.0


From 6abcc31d9d6dd87f9977d6ca7b3669b019e6bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 06/19] fix: do not add the plot directory to the settings when
 plotting

---
 src/lib/pytornado/plot/makeplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/plot/makeplots.py b/src/lib/pytornado/plot/makeplots.py
index 6546635..4a8ad4d 100644
--- a/src/lib/pytornado/plot/makeplots.py
+++ b/src/lib/pytornado/plot/makeplots.py
@@ -50,7 +50,7 @@ def make_all(settings, aircraft, cur_state, vlmdata, lattice):
     def get_plot_settings(plot_name):
         """Return a 'plot_settings' dictionary"""
 
-        plot_settings = settings.settings['plot'][plot_name]
+        plot_settings = dict(settings.settings['plot'][plot_name])
         plot_settings['plot_dir'] = settings.paths('d_plots')
         return plot_settings
 
-- 
2.43.0


From a393ef90159214f02b0f8e433e3aacdb77849543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 07/19] fix: raise an error if the VLM kernel rejects its input

---
 src/lib/pytornado/aero/c_vlm.cpp | 59 +++++++++++++++-----------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/src/lib/pytornado/aero/c_vlm.cpp b/src/lib/pytornado/aero/c_vlm.cpp
index 1975e10..b18c21e 100644
--- a/src/lib/pytornado/aero/c_vlm.cpp
+++ b/src/lib/pytornado/aero/c_vlm.cpp
@@ -92,6 +92,14 @@ double* get_freestream_direction(double* freestream_dir, double alpha, double be
     return freestream_dir;
 }
 
+// Tell Python that the data passed to the kernel cannot be used
+static PyObject* set_error()
+{
+    if (!PyErr_Occurred())
+        PyErr_SetString(PyExc_RuntimeError, "VLM kernel received invalid data");
+    return NULL;
+}
+
 // ===== LATTICE GENERATION =====
 static PyObject* py2c_lattice( PyObject *self, PyObject *args )
 {
@@ -114,22 +122,19 @@ static PyObject* py2c_lattice( PyObject *self, PyObject *args )
     latticestruct lattice;
     if (get_latticestruct(py_lattice, &lattice) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     infostruct info;
     if (get_infostruct(py_lattice, &info) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     statestruct state;
     if (get_statestruct(py_state, &state) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     /* GET SEGMENT VERTICES AND PANEL COUNTS *********************************/
@@ -138,6 +143,7 @@ static PyObject* py2c_lattice( PyObject *self, PyObject *args )
     if (!PyArray_ISFLOAT(py_pts))
     {
         std::cout << "ERROR: array_segments must have FLOAT data type" << std::endl;
+        return set_error();
     }
     double* pts = (double*)PyArray_DATA(py_pts);
 
@@ -145,6 +151,7 @@ static PyObject* py2c_lattice( PyObject *self, PyObject *args )
     if (!PyArray_ISINTEGER(py_sym))
     {
         std::cout << "ERROR: array_symmetry must have INTEGER data type" << std::endl;
+        return set_error();
     }
     long int* sym = (long int*)PyArray_DATA(py_sym);
 
@@ -152,6 +159,7 @@ static PyObject* py2c_lattice( PyObject *self, PyObject *args )
     if (!PyArray_ISINTEGER(py_pan))
     {
         std::cout << "ERROR: array_panels must have INTEGER data type" << std::endl;
+        return set_error();
     }
     long int* pan = (long int*)PyArray_DATA(py_pan);
 
@@ -165,8 +173,7 @@ static PyObject* py2c_lattice( PyObject *self, PyObject *args )
     // SET LATTICE QUALITY CONTROLS IN PYDICT
     if (set_infostruct(py_lattice, &info) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     // Clean up reference counts before leaving C
@@ -192,15 +199,13 @@ static PyObject* py2c_downwash( PyObject *self, PyObject *args )
     latticestruct lattice;
     if (get_latticestruct(py_lattice, &lattice) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     infostruct info;
     if (get_infostruct(py_lattice, &info) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     // Send to actual C CODE
@@ -231,29 +236,25 @@ static PyObject* py2c_boundary( PyObject *self, PyObject *args )
     latticestruct lattice;
     if (get_latticestruct(py_lattice, &lattice) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     infostruct info;
     if (get_infostruct(py_lattice, &info) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     statestruct state;
     if (get_statestruct(py_state, &state) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     refstruct refs;
     if (get_refstruct(py_state, &refs) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     // Send to actual C CODE (no more magic required in the rest of the code)
@@ -282,36 +283,31 @@ static PyObject* py2c_results( PyObject *self, PyObject *args )
     latticestruct lattice;
     if (get_latticestruct(py_lattice, &lattice) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     infostruct info;
     if (get_infostruct(py_lattice, &info) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     statestruct state;
     if (get_statestruct(py_state, &state) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     refstruct refs;
     if (get_refstruct(py_state, &refs) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     resultstruct results;
     if (get_resultstruct(py_results, &results) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     // Send to actual C CODE (no more magic required in the rest of the code)
@@ -319,8 +315,7 @@ static PyObject* py2c_results( PyObject *self, PyObject *args )
 
     if (set_resultstruct(py_results, &results) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return set_error();
     }
 
     // Clean up reference counts before leaving C
-- 
2.43.0


From 9e22f2182d96f67bdadcd2698c74371e100ba412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 08/19] fix: report results which could not be removed when
 cleaning

---
 src/lib/pytornado/objects/settings.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/settings.py b/src/lib/pytornado/objects/settings.py
index a0075a6..8c8b8b0 100644
--- a/src/lib/pytornado/objects/settings.py
+++ b/src/lib/pytornado/objects/settings.py
@@ -29,6 +29,7 @@ Developed for Airinnova AB, Stockholm, Sweden.
 
 import os
 import logging
+import shutil
 from pathlib import Path
 
 from pytornado.objects.utils import check_dict, get_default_dict
@@ -220,9 +221,17 @@ class Settings:
     def clean(self):
         """
         Remove old files in project directory
+
+        Raises:
+            :OSError: If something could not be removed
         """
 
-        self.paths.rm_dirs_for_groups('tmp')
+        for path in self.paths.iter_group_paths('tmp'):
+            try:
+                os.lstat(path)
+            except FileNotFoundError:
+                continue
+            shutil.rmtree(path)
 
     def _check_settings_dict(self):
         """
-- 
2.43.0


From 167475194ef2e0ae5accc5e66bbb15a1583f1e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 09/19] fix: write result files all-or-nothing

---
 src/lib/pytornado/fileio/native/results.py | 38 ++++++++++++----------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/results.py b/src/lib/pytornado/fileio/native/results.py
index 9707451..b076acf 100644
--- a/src/lib/pytornado/fileio/native/results.py
+++ b/src/lib/pytornado/fileio/native/results.py
@@ -32,7 +32,7 @@ import logging
 import numpy as np
 from commonlibs.logger import truncate_filepath
 
-from pytornado.fileio.utils import dump_pretty_json
+from pytornado.fileio.utils import dump_pretty_json, open_atomic
 
 logger = logging.getLogger(__name__)
 
@@ -84,7 +84,7 @@ def _save_glob_results(state, vlmdata, settings):
     output['global_forces'] = {k: v for k, v in vlmdata.forces.items()}
     output['global_coeffs'] = {k: v for k, v in vlmdata.coeffs.items()}
 
-    with open(filepath, "w") as fp:
+    with open_atomic(filepath) as fp:
         dump_pretty_json(output, fp)
 
 
@@ -126,14 +126,15 @@ def _save_panelwise(state, vlmdata, settings):
         field_size = 14
 
     # ----- Save -----
-    np.savetxt(
-        filepath,
-        data,
-        delimiter=',',
-        header=header,
-        fmt=fmt,
-        comments='# '
-    )
+    with open_atomic(filepath) as fp:
+        np.savetxt(
+            fp,
+            data,
+            delimiter=',',
+            header=header,
+            fmt=fmt,
+            comments='# '
+        )
 
 
 def _save_matrix_system(state, vlmdata, settings):
@@ -159,13 +160,14 @@ def _save_matrix_system(state, vlmdata, settings):
     header += f"Right-hand side: {vlmdata.array_rhs.shape}"
 
     # ----- Save -----
-    np.savetxt(
-        filepath,
-        data, delimiter=',',
-        header=header,
-        fmt=FMT_NUM,
-        comments='# '
-    )
+    with open_atomic(filepath) as fp:
+        np.savetxt(
+            fp,
+            data, delimiter=',',
+            header=header,
+            fmt=FMT_NUM,
+            comments='# '
+        )
 
 
 def save_aeroperformance_map(state, settings):
@@ -185,5 +187,5 @@ def save_aeroperformance_map(state, settings):
         for k, v in dictionary.items():
             output[k] = list(v) if v is not None else []
 
-    with open(filepath, "w") as fp:
+    with open_atomic(filepath) as fp:
         dump_pretty_json(output, fp)
-- 
2.43.0


From 32e6f772a47b7d6f38da535e3b05ef5601160a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 10/19] fix: release references in the VLM kernel wrapper

Each call of the kernel kept the lattice and result arrays alive forever
---
 src/lib/pytornado/aero/c_vlm.cpp | 204 +++++++++++++++++--------------
 1 file changed, 111 insertions(+), 93 deletions(-)

diff --git a/src/lib/pytornado/aero/c_vlm.cpp b/src/lib/pytornado/aero/c_vlm.cpp
index b18c21e..c8fb39c 100644
--- a/src/lib/pytornado/aero/c_vlm.cpp
+++ b/src/lib/pytornado/aero/c_vlm.cpp
@@ -100,6 +100,24 @@ static PyObject* set_error()
     return NULL;
 }
 
+// Return an attribute without owning it (it is kept alive by the object)
+static PyObject* get_attribute(PyObject* obj, const char* name)
+{
+    PyObject* attr = PyObject_GetAttrString(obj, name);
+    Py_XDECREF(attr);
+    return attr;
+}
+
+// Set a number in a dictionary
+static void set_float(PyObject* dict, PyObject* key, double value)
+{
+    PyObject* py_value = PyFloat_FromDouble(value);
+    if (py_value == NULL)
+        return;
+    PyDict_SetItem(dict, key, py_value);
+    Py_DECREF(py_value);
+}
+
 // ===== LATTICE GENERATION =====
 static PyObject* py2c_lattice( PyObject *self, PyObject *args )
 {
@@ -342,12 +360,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'p'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "p")))
+    else if (!PyArray_Check(get_attribute(py_lattice, "p")))
     {
         std::cout << "ERROR: lattice.p is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_p = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "p");
+    py_p = (PyArrayObject*)get_attribute(py_lattice, "p");
 
     // Get NUMPY array of panel vortex segment endpoints
     if (!PyObject_HasAttrString(py_lattice, "v"))
@@ -355,12 +373,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'v'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "v")))
+    else if (!PyArray_Check(get_attribute(py_lattice, "v")))
     {
         std::cout << "ERROR: lattice.v is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_v = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "v");
+    py_v = (PyArrayObject*)get_attribute(py_lattice, "v");
 
     // Get NUMPY array of panel collocation points
     if (!PyObject_HasAttrString(py_lattice, "c"))
@@ -368,12 +386,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'c'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "c")))
+    else if (!PyArray_Check(get_attribute(py_lattice, "c")))
     {
         std::cout << "ERROR: lattice.c is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_c = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "c");
+    py_c = (PyArrayObject*)get_attribute(py_lattice, "c");
 
     // Get NUMPY array of bound leg midpoint
     if (!PyObject_HasAttrString(py_lattice, "bound_leg_midpoints"))
@@ -381,12 +399,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'bound_leg_midpoints'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "bound_leg_midpoints")))
+    else if (!PyArray_Check(get_attribute(py_lattice, "bound_leg_midpoints")))
     {
         std::cout << "ERROR: lattice.bound_leg_midpoints is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_bound_leg_midpoints = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "bound_leg_midpoints");
+    py_bound_leg_midpoints = (PyArrayObject*)get_attribute(py_lattice, "bound_leg_midpoints");
 
     // Get NUMPY array of panel normal vectors
     if (!PyObject_HasAttrString(py_lattice, "n"))
@@ -394,12 +412,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'n'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "n")))
+    else if (!PyArray_Check(get_attribute(py_lattice, "n")))
     {
         std::cout << "ERROR: lattice.n is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_n = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "n");
+    py_n = (PyArrayObject*)get_attribute(py_lattice, "n");
 
     // Get NUMPY array of panel corner points
     if (!PyObject_HasAttrString(py_lattice, "a"))
@@ -407,12 +425,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'a'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "a")))
+    else if (!PyArray_Check(get_attribute(py_lattice, "a")))
     {
         std::cout << "ERROR: lattice.a is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_a = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "a");
+    py_a = (PyArrayObject*)get_attribute(py_lattice, "a");
 
     // Get epsilon
     if (!PyObject_HasAttrString(py_lattice, "epsilon"))
@@ -420,12 +438,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'epsilon'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyFloat_Check(PyObject_GetAttrString(py_lattice, "epsilon")))
+    else if (!PyFloat_Check(get_attribute(py_lattice, "epsilon")))
     {
         std::cout << "ERROR: lattice.epsilon is not a FLOAT" << std::endl;
         return ERR_TYPE;
     }
-    epsilon = PyFloat_AsDouble(PyObject_GetAttrString(py_lattice, "epsilon"));
+    epsilon = PyFloat_AsDouble(get_attribute(py_lattice, "epsilon"));
 
     // ===== GET LATTICE ATTRIBUTES (DATA) =====
 
@@ -497,12 +515,12 @@ static int get_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: lattice does not have attribute 'info'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_lattice, "info");
+    py_attr = get_attribute(py_lattice, "info");
     py_dict = py_attr;
 
     // GET LATTICE CONTROLS DATA
 
-    py_key = PyUnicode_FromString("num_panels");
+    py_key = PyUnicode_InternFromString("num_panels");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'num_panels' in lattice.info" << std::endl;
@@ -519,7 +537,7 @@ static int get_infostruct( PyObject* py_lattice, infostruct* info )
     // Get number of panels
     info->num_pan = PyLong_AsLong(py_val);
 
-    py_key = PyUnicode_FromString("num_segments");
+    py_key = PyUnicode_InternFromString("num_segments");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'num_segments' in lattice.info" << std::endl;
@@ -553,64 +571,64 @@ static int set_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: lattice does not have attribute 'info'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_lattice, "info");
+    py_attr = get_attribute(py_lattice, "info");
     py_dict = py_attr;
 
     // SET LATTICE CONTROLS DATA
 
     // Set minimum panel area
-    py_key = PyUnicode_FromString("area_min");
+    py_key = PyUnicode_InternFromString("area_min");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'area_min' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->area_min));
+    set_float(py_dict, py_key, info->area_min);
 
     // Set maximum panel area
-    py_key = PyUnicode_FromString("area_max");
+    py_key = PyUnicode_InternFromString("area_max");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'area_max' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->area_max));
+    set_float(py_dict, py_key, info->area_max);
 
     // Set average panel area
-    py_key = PyUnicode_FromString("area_avg");
+    py_key = PyUnicode_InternFromString("area_avg");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'area_avg' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->area_avg));
+    set_float(py_dict, py_key, info->area_avg);
 
     // Set minimum panel aspect ratio
-    py_key = PyUnicode_FromString("aspect_min");
+    py_key = PyUnicode_InternFromString("aspect_min");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'aspect_min' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->aspect_min));
+    set_float(py_dict, py_key, info->aspect_min);
 
     // Set maximum panel aspect ratio
-    py_key = PyUnicode_FromString("aspect_max");
+    py_key = PyUnicode_InternFromString("aspect_max");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'aspect_max' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->aspect_max));
+    set_float(py_dict, py_key, info->aspect_max);
 
     // Set average panel aspect ratio
-    py_key = PyUnicode_FromString("aspect_avg");
+    py_key = PyUnicode_InternFromString("aspect_avg");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'aspect_avg' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->aspect_avg));
+    set_float(py_dict, py_key, info->aspect_avg);
 
     return ERR_SUCCESS;
 }
@@ -630,12 +648,12 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
         std::cout << "ERROR: state does not have attribute 'aero'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_state, "aero");
+    py_attr = get_attribute(py_state, "aero");
     py_dict = py_attr;
 
     // GET AERODYNAMIC OPERATING CONDITIONS (PY DICT)
 
-    py_key = PyUnicode_FromString("airspeed");
+    py_key = PyUnicode_InternFromString("airspeed");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'airspeed' in state.aero" << std::endl;
@@ -652,7 +670,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
     // Get value of airspeed
     state->airspeed = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("alpha");
+    py_key = PyUnicode_InternFromString("alpha");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'alpha' in state.aero" << std::endl;
@@ -669,7 +687,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
     // Get value of alpha
     state->alpha = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("beta");
+    py_key = PyUnicode_InternFromString("beta");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'beta' in state.aero" << std::endl;
@@ -686,7 +704,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
     // Get value of beta
     state->beta = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("rate_P");
+    py_key = PyUnicode_InternFromString("rate_P");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'rate_P' in state.aero" << std::endl;
@@ -703,7 +721,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
     // Get value of alpha
     state->P = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("rate_Q");
+    py_key = PyUnicode_InternFromString("rate_Q");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'rate_Q' in state.aero" << std::endl;
@@ -720,7 +738,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
     // Get value of alpha
     state->Q = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("rate_R");
+    py_key = PyUnicode_InternFromString("rate_R");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'rate_R' in state.aero" << std::endl;
@@ -737,7 +755,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
 
     state->R = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("density");
+    py_key = PyUnicode_InternFromString("density");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'density' in state.aero" << std::endl;
@@ -773,12 +791,12 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
         std::cout << "ERROR: state does not have attribute 'refs'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_state, "refs");
+    py_attr = get_attribute(py_state, "refs");
     py_dict = py_attr;
 
     /* GET REFERENCE POINT AND CENTER OF GRAVITY (NUMPY ARRAY) ***************/
 
-    py_key = PyUnicode_FromString("area");
+    py_key = PyUnicode_InternFromString("area");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'area' in state.refs" << std::endl;
@@ -795,7 +813,7 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
     // Get value of reference area
     refs->area = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("span");
+    py_key = PyUnicode_InternFromString("span");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'span' in state.refs" << std::endl;
@@ -812,7 +830,7 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
     // Get value of reference span
     refs->span = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("chord");
+    py_key = PyUnicode_InternFromString("chord");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'chord' in state.refs" << std::endl;
@@ -832,7 +850,7 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
     PyArrayObject* py_CG = NULL;
     PyArrayObject* py_RP = NULL;
 
-    py_key = PyUnicode_FromString("gcenter");
+    py_key = PyUnicode_InternFromString("gcenter");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'gcenter' in state.refs" << std::endl;
@@ -845,7 +863,7 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
     }
     py_CG = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("rcenter");
+    py_key = PyUnicode_InternFromString("rcenter");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'rcenter' in state.refs" << std::endl;
@@ -893,7 +911,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: vlmdata does not have attribute 'panelwise'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_data, "panelwise");
+    py_attr = get_attribute(py_data, "panelwise");
     py_dict =py_attr;
 
     // GET PANEL-WISE DATA (NUMPY ARRAYS)
@@ -912,7 +930,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
 
     PyArrayObject* py_cp = NULL;
 
-    py_key = PyUnicode_FromString("gamma");
+    py_key = PyUnicode_InternFromString("gamma");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'gamma' in vlmdata.panelwise" << std::endl;
@@ -925,7 +943,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_gamma = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("vx");
+    py_key = PyUnicode_InternFromString("vx");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'vx' in vlmdata.panelwise" << std::endl;
@@ -938,7 +956,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_iwx = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("vy");
+    py_key = PyUnicode_InternFromString("vy");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'vy' in vlmdata.panelwise" << std::endl;
@@ -951,7 +969,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_iwy = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("vz");
+    py_key = PyUnicode_InternFromString("vz");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'vz' in vlmdata.panelwise" << std::endl;
@@ -964,7 +982,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_iwz = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("vmag");
+    py_key = PyUnicode_InternFromString("vmag");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'vmag' in vlmdata.panelwise" << std::endl;
@@ -977,7 +995,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_iwmag = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("fx");
+    py_key = PyUnicode_InternFromString("fx");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'fx' in vlmdata.panelwise" << std::endl;
@@ -990,7 +1008,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_fx = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("fy");
+    py_key = PyUnicode_InternFromString("fy");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'fy' in vlmdata.panelwise" << std::endl;
@@ -1003,7 +1021,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_fy = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("fz");
+    py_key = PyUnicode_InternFromString("fz");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'fz' in vlmdata.panelwise" << std::endl;
@@ -1016,7 +1034,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_fz = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("fmag");
+    py_key = PyUnicode_InternFromString("fmag");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'fmag' in vlmdata.panelwise" << std::endl;
@@ -1029,7 +1047,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_fmag = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("cp");
+    py_key = PyUnicode_InternFromString("cp");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'cp' in vlmdata.panelwise" << std::endl;
@@ -1141,91 +1159,91 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: vlmdata does not have attribute 'forces'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_data, "forces");
+    py_attr = get_attribute(py_data, "forces");
     py_dict = py_attr;
 
     // SET AERODYNAMIC FORCES
 
     // Get total x-directional force
-    py_key = PyUnicode_FromString("x");
+    py_key = PyUnicode_InternFromString("x");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'x' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_x));
+    set_float(py_dict, py_key, results->ftot_x);
 
     // Get total y-directional force
-    py_key = PyUnicode_FromString("y");
+    py_key = PyUnicode_InternFromString("y");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'y' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_y));
+    set_float(py_dict, py_key, results->ftot_y);
 
     // Get total z-directional force
-    py_key = PyUnicode_FromString("z");
+    py_key = PyUnicode_InternFromString("z");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'z' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_z));
+    set_float(py_dict, py_key, results->ftot_z);
 
     // Get total drag force
-    py_key = PyUnicode_FromString("D");
+    py_key = PyUnicode_InternFromString("D");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'D' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_D));
+    set_float(py_dict, py_key, results->ftot_D);
 
     // Get total side force
-    py_key = PyUnicode_FromString("C");
+    py_key = PyUnicode_InternFromString("C");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'C' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_C));
+    set_float(py_dict, py_key, results->ftot_C);
 
     // Get total lift force
-    py_key = PyUnicode_FromString("L");
+    py_key = PyUnicode_InternFromString("L");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'L' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_L));
+    set_float(py_dict, py_key, results->ftot_L);
 
     // Get total x-directional moment
-    py_key = PyUnicode_FromString("l");
+    py_key = PyUnicode_InternFromString("l");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'l' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->mtot_x));
+    set_float(py_dict, py_key, results->mtot_x);
 
     // Get total y-directional moment
-    py_key = PyUnicode_FromString("m");
+    py_key = PyUnicode_InternFromString("m");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'm' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->mtot_y));
+    set_float(py_dict, py_key, results->mtot_y);
 
     // Get total z-directional moment
-    py_key = PyUnicode_FromString("n");
+    py_key = PyUnicode_InternFromString("n");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'n' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->mtot_z));
+    set_float(py_dict, py_key, results->mtot_z);
 
     // GET AERODYNAMIC COEFFICIENTS DICT
 
@@ -1235,91 +1253,91 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: vlmdata does not have attribute 'coeffs'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_data, "coeffs");
+    py_attr = get_attribute(py_data, "coeffs");
     py_dict = py_attr;
 
     // SET AERODYNAMIC COEFFICIENTS
 
     // Get total x-directional force coefficient
-    py_key = PyUnicode_FromString("x");
+    py_key = PyUnicode_InternFromString("x");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'x' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cx));
+    set_float(py_dict, py_key, results->Cx);
 
     // Get total y-directional force coefficient
-    py_key = PyUnicode_FromString("y");
+    py_key = PyUnicode_InternFromString("y");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'y' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cy));
+    set_float(py_dict, py_key, results->Cy);
 
     // Get total z-directional force coefficient
-    py_key = PyUnicode_FromString("z");
+    py_key = PyUnicode_InternFromString("z");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'z' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cz));
+    set_float(py_dict, py_key, results->Cz);
 
     // Get total drag force coefficient
-    py_key = PyUnicode_FromString("D");
+    py_key = PyUnicode_InternFromString("D");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'D' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->CD));
+    set_float(py_dict, py_key, results->CD);
 
     // Get total side force coefficient
-    py_key = PyUnicode_FromString("C");
+    py_key = PyUnicode_InternFromString("C");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'C' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->CC));
+    set_float(py_dict, py_key, results->CC);
 
     // Get total lift force coefficient
-    py_key = PyUnicode_FromString("L");
+    py_key = PyUnicode_InternFromString("L");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'L' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->CL));
+    set_float(py_dict, py_key, results->CL);
 
     // Get total x-directional moment coefficient
-    py_key = PyUnicode_FromString("l");
+    py_key = PyUnicode_InternFromString("l");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'l' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cl));
+    set_float(py_dict, py_key, results->Cl);
 
     // Get total y-directional moment coefficient
-    py_key = PyUnicode_FromString("m");
+    py_key = PyUnicode_InternFromString("m");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'm' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cm));
+    set_float(py_dict, py_key, results->Cm);
 
     // Get total z-directional moment coefficient
-    py_key = PyUnicode_FromString("n");
+    py_key = PyUnicode_InternFromString("n");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'n' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cn));
+    set_float(py_dict, py_key, results->Cn);
 
     return ERR_SUCCESS;
 }
-- 
2.43.0


From d6e63e32c82edd255bf35120923fd4d3db0571ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 11/19] fix: close figures and do not save incomplete plots if
 plotting fails

---
 src/lib/pytornado/plot/downwash.py  | 22 ++++++++++++----------
 src/lib/pytornado/plot/plottools.py | 18 ++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/lib/pytornado/plot/downwash.py b/src/lib/pytornado/plot/downwash.py
index 1a3c633..afe1703 100644
--- a/src/lib/pytornado/plot/downwash.py
+++ b/src/lib/pytornado/plot/downwash.py
@@ -54,13 +54,15 @@ def view_downwash(vlmdata, plt_settings):
         logger.error(err_msg)
         raise TypeError(err_msg)
 
-    figure = plt.figure(figsize=(9, 9))
-    axes = figure.add_subplot(111)
-    axes.set_aspect('equal')
-    axes.matshow(vlmdata.matrix_downwash, cmap=pt.C.COLORMAP)
-    axes.set_xlabel('i')
-    axes.set_ylabel('j')
-    axes.set_title("Downwash factor matrix")
-
-    pt.show_and_save(plt_settings, (figure, 'downwash'))
-    plt.close('all')
+    try:
+        figure = plt.figure(figsize=(9, 9))
+        axes = figure.add_subplot(111)
+        axes.set_aspect('equal')
+        axes.matshow(vlmdata.matrix_downwash, cmap=pt.C.COLORMAP)
+        axes.set_xlabel('i')
+        axes.set_ylabel('j')
+        axes.set_title("Downwash factor matrix")
+
+        pt.show_and_save(plt_settings, (figure, 'downwash'))
+    finally:
+        plt.close('all')
diff --git a/src/lib/pytornado/plot/plottools.py b/src/lib/pytornado/plot/plottools.py
index d935b7b..113a19f 100644
--- a/src/lib/pytornado/plot/plottools.py
+++ b/src/lib/pytornado/plot/plottools.py
@@ -232,21 +232,19 @@ def plot2d3d(aircraft, plot_name, plot_settings):
           A suffix '2D' or '3D' is added to 'plot_name'
     """
 
-    # ----- 3D plot -----
-    figure_3d, axes_3d = _init_plot3d(title=aircraft.uid)
-    _add_info_plot3d(axes_3d, aircraft)
+    try:
+        # ----- 3D plot -----
+        figure_3d, axes_3d = _init_plot3d(title=aircraft.uid)
+        _add_info_plot3d(axes_3d, aircraft)
 
-    # ----- 2D plot -----
-    figure_2d, axes_2d = _init_plot2d(title=aircraft.uid)
+        # ----- 2D plot -----
+        figure_2d, axes_2d = _init_plot2d(title=aircraft.uid)
 
-    _scale_plots(axes_2d, axes_3d, aircraft)
+        _scale_plots(axes_2d, axes_3d, aircraft)
 
-    try:
         yield (figure_2d, axes_2d, figure_3d, axes_3d)
-    # except:
-    #     plt.close('all')
-    finally:
         show_and_save(plot_settings, (figure_3d, plot_name + '3D'), (figure_2d, plot_name + '2D'))
+    finally:
         plt.close('all')
 
 
-- 
2.43.0


From e34a5f172a41a07dc4fc3d6dc429c8207efb864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 12/19] fix: update CPACS files all-or-nothing

---
 src/lib/pytornado/fileio/cpacs/utils.py | 44 +++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/utils.py b/src/lib/pytornado/fileio/cpacs/utils.py
index 87ba77b..1bdd204 100644
--- a/src/lib/pytornado/fileio/cpacs/utils.py
+++ b/src/lib/pytornado/fileio/cpacs/utils.py
@@ -27,6 +27,9 @@ General CPACS functions
 from contextlib import contextmanager
 
 import logging
+import os
+import shutil
+import uuid
 
 logger = logging.getLogger(__name__)
 
@@ -150,8 +153,39 @@ def close_tixi(tixi, cpacs_file):
         :cpacs_file: CPACS file path
     """
 
-    tixi.saveDocument(str(cpacs_file))
-    tixi.close()
+    try:
+        save_tixi(tixi, cpacs_file)
+    finally:
+        tixi.close()
+
+
+def save_tixi(tixi, cpacs_file):
+    """
+    Save to file all-or-nothing
+
+    The document is written to a temporary file in the same directory, which
+    then replaces the CPACS file. If an error occurs the file is left unchanged.
+
+    Args:
+        :tixi: Tixi handle
+        :cpacs_file: CPACS file path
+    """
+
+    cpacs_file = os.path.realpath(str(cpacs_file))  # Write through symbolic links
+    dirname, basename = os.path.split(cpacs_file)
+    tmp_file = os.path.join(dirname, f".{basename}.{uuid.uuid4().hex}.tmp")
+
+    try:
+        tixi.saveDocument(tmp_file)
+        if os.path.exists(cpacs_file):
+            shutil.copymode(cpacs_file, tmp_file)
+        os.replace(tmp_file, cpacs_file)
+    except BaseException:
+        try:
+            os.remove(tmp_file)
+        except OSError:
+            pass
+        raise
 
 
 def open_tigl(tixi):
@@ -235,6 +269,9 @@ def modify_cpacs(cpacs_file):
     """
     Context manganger for handling CPACS files
 
+    Note:
+        * The file is only changed if there was no error
+
     Args:
         :cpacs_file: CPACS file path
     """
@@ -242,5 +279,6 @@ def modify_cpacs(cpacs_file):
     tixi = open_tixi(cpacs_file)
     try:
         yield tixi
+        save_tixi(tixi, cpacs_file)
     finally:
-        close_tixi(tixi, cpacs_file)
+        tixi.close()
-- 
2.43.0


From 99ed2ef7e6e8361a23a3fb1d9bcbed4600f67f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 13/19] fix: always close CPACS files

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 22 +++++++++++++---------
 src/lib/pytornado/fileio/cpacs/state.py    |  5 ++++-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index c484e3d..1f38553 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -437,18 +437,22 @@ def load(settings):
         logger.error(err_msg)
         raise FileNotFoundError(err_msg)
 
-    tixi = open_tixi(cpacs_file)
-    tigl = open_tigl(tixi)
-
     # Reset the aircraft model
     aircraft = Aircraft()
 
-    # Extract CPACS data and add to aircraft model
-    get_aircraft_name(aircraft, tixi)
-    get_aircraft_wings(aircraft, settings, tixi, tigl)
-    write_airfoil_files(settings, tixi)
-    get_aircraft_refs(aircraft, tixi)
+    tixi = open_tixi(cpacs_file)
+    try:
+        tigl = open_tigl(tixi)
+        try:
+            # Extract CPACS data and add to aircraft model
+            get_aircraft_name(aircraft, tixi)
+            get_aircraft_wings(aircraft, settings, tixi, tigl)
+            write_airfoil_files(settings, tixi)
+            get_aircraft_refs(aircraft, tixi)
+        finally:
+            tigl.close()
+    finally:
+        tixi.close()
 
     aircraft.generate()
-    tixi.close()
     return aircraft
diff --git a/src/lib/pytornado/fileio/cpacs/state.py b/src/lib/pytornado/fileio/cpacs/state.py
index 5ff4bc6..a6b9117 100644
--- a/src/lib/pytornado/fileio/cpacs/state.py
+++ b/src/lib/pytornado/fileio/cpacs/state.py
@@ -48,8 +48,11 @@ def load(settings):
         raise FileNotFoundError(err_msg)
 
     tixi = open_tixi(cpacs_file)
+    try:
+        state_dict = _get_aero_dict_from_APM(tixi)
+    finally:
+        tixi.close()
 
-    state_dict = _get_aero_dict_from_APM(tixi)
     state = FlightState()
     state.update_from_dict(**state_dict)
     return state
-- 
2.43.0


From 10f3496497187111b0737ac0181d93216c6e8a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 14/19] fix: write CPACS airfoil files all-or-nothing

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index 1f38553..a6d8b9d 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -32,7 +32,7 @@ import numpy as np
 
 from commonlibs.fileio.paths import join_paths
 
-from pytornado.fileio.utils import parse_str
+from pytornado.fileio.utils import open_atomic, parse_str
 from pytornado.objects.aircraft import ComponentDefinitionError, Aircraft
 from pytornado.objects.settings import PATHS
 from pytornado.objects.objecttools import all_controls, all_wings
@@ -389,7 +389,8 @@ def write_airfoil_files(settings, tixi):
         coords = np.transpose([coords_x, coords_z])
 
         logger.info(f"Copying airfoil {name_airfoil} to file...")
-        np.savetxt(file_airfoil, coords, header=f"{name_airfoil}", fmt=COORD_FORMAT)
+        with open_atomic(file_airfoil) as fp:
+            np.savetxt(fp, coords, header=f"{name_airfoil}", fmt=COORD_FORMAT)
 
 
 def get_aircraft_refs(aircraft, tixi):
-- 
2.43.0


From a977305d7e79cba177823979d555f8fe24e55969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 15/19] fix: do not ignore cancellation while reading CPACS
 files

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index a6d8b9d..bd74c70 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -288,7 +288,7 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
     # ----- CONTROL SURFACE DEFLECTION -----
     try:
         n_control_dev = tixi.getNamedChildrenCount(XPATHS.TOOLSPEC_CONTROL, 'controlDevice')
-    except:
+    except tixiwrapper.TixiException:
         n_control_dev = 0
 
     for idx_control in range(1, n_control_dev + 1):
@@ -304,7 +304,7 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
 
         try:
             deflection_mirror = tixi.getDoubleElement(node_control_device + '/deflectionMirror')
-        except:
+        except tixiwrapper.TixiException:
             logger.warning("Unable to read 'deflection_mirror' for control '{:s}'".format(control_uid))
 
         deflection_is_set = False
-- 
2.43.0


From 393a567116cbf46cba00051199012ef96c40dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 16/19] fix: write CPACS results in a fixed order

The order of the coefficient vectors in the CPACS file depended on the hash seed.
---
 src/lib/pytornado/fileio/cpacs/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/results.py b/src/lib/pytornado/fileio/cpacs/results.py
index a9650ed..0d2aaa0 100644
--- a/src/lib/pytornado/fileio/cpacs/results.py
+++ b/src/lib/pytornado/fileio/cpacs/results.py
@@ -49,14 +49,14 @@ def save_aeroperformance_map(state, settings):
     cpacs_file = settings.paths('f_aircraft')
     logger.info(f"Writing aeroperformance map results to '{truncate_filepath(cpacs_file)}'")
 
-    cpacs_mappings = {
+    cpacs_mappings = [
         ('cl', 'CL'),  # Lift coefficient in aerodynamic coordinates
         ('cd', 'CD'),  # Drag coefficient in aerodynamic coordinates
         ('cs', 'CC'),  # Coefficient of the side force vector in aerodynamic coordinates
         ('cmd', 'Cl'),  # Moment coefficient about x
         ('cms', 'Cm'),  # Moment coefficient about y
         ('cml', 'Cn'),  # Moment coefficient about z
-    }
+    ]
 
     with modify_cpacs(cpacs_file) as tixi:
         for key_cpacs, key_native in cpacs_mappings:
-- 
2.43.0


From 04b0da76987869311c3fb0b3784312bcab0b3780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 17/19] fix: do not take airfoils from the current directory

Relative airfoil paths refer to the project directory (as documented) and
a NACA definition is not a file name.
---
 src/lib/pytornado/fileio/native/aircraft.py | 5 +++--
 src/lib/pytornado/objects/aircraft.py       | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index c99b94c..f72c34a 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -30,6 +30,7 @@ Developed at Airinnova AB, Stockholm, Sweden.
 import os
 import logging
 import json
+import re
 
 from commonlibs.logger import truncate_filepath
 
@@ -86,8 +87,8 @@ def load(settings):
                     segment.geometry[key] = value
 
             for key, value in segment_entry['airfoils'].items():
-                # From now on use the absolute file path
-                if value.startswith(PATHS.DIR.AIRFOILS):
+                # From now on use the absolute file path (relative paths refer to the project directory)
+                if not re.fullmatch(r'NACA\d{4}', value.upper()):
                     value = os.path.join(settings.paths('root'), value)
                 segment.airfoils[key] = value
 
diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index bb1bbec..0ee4f30 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -48,6 +48,7 @@ from copy import copy
 from math import sqrt, sin, cos, tan, asin, atan2, degrees, radians
 import logging
 import os
+import re
 
 import numpy as np
 from commonlibs.math.vectors import get_plane_line_intersect
@@ -698,7 +699,8 @@ class WingSegment:
             import_from_file = False
             import_from_NACA = False
 
-            if os.path.isfile(airfoil_definition):
+            # Note: 'NACAxxxx' is always a definition (even if there is a file of that name in the current directory)
+            if os.path.isfile(airfoil_definition) and not re.fullmatch(r'NACA\d{4}', airfoil_definition.upper()):
                 logger.info(f"Importing airfoil from file: '{airfoil_definition}'")
                 import_from_file = True
             elif airfoil_definition.upper().startswith('NACA'):
-- 
2.43.0


From 717c7850c573ab137576b080bc45ffeb3f60f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 18/19] fix: save paths of airfoil files such that they can be
 loaded again

The path of every file with 'blade.' in its name was replaced by a path in
the airfoils directory, wherever the file was.
---
 src/lib/pytornado/fileio/native/aircraft.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index f72c34a..cd6d9ad 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -36,7 +36,6 @@ from commonlibs.logger import truncate_filepath
 
 from pytornado.fileio.utils import dump_pretty_json, open_atomic
 from pytornado.objects.aircraft import Aircraft
-from pytornado.objects.settings import PATHS
 
 logger = logging.getLogger(__name__)
 
@@ -159,11 +158,11 @@ def save(aircraft, settings):
 
             segment_entry['airfoils'] = {}
             for key, value in segment.airfoils.items():
-                # If airfoil is "blade" file, make sure to save as relative path
+                # If airfoil is a file in the project directory, make sure to save as relative path
                 # Note: Airfoil definition may also be for instance "NACA1234"
-                if "blade." in value:
+                if value.startswith(os.path.join(settings.paths('root'), '')):
                     # Make path relative!
-                    value = os.path.join(PATHS.DIR.AIRFOILS, os.path.basename(value))
+                    value = os.path.relpath(value, settings.paths('root'))
                 segment_entry['airfoils'][key] = value
 
             segment_entry['panels'] = {}
-- 
2.43.0


From 28cec478baf659c04ef5ca4a0c23374063e1995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 19/19] fix: close only the figures opened by pytornado, not
 those of the caller

---
 src/lib/pytornado/plot/downwash.py  |  4 +++-
 src/lib/pytornado/plot/plottools.py | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/plot/downwash.py b/src/lib/pytornado/plot/downwash.py
index afe1703..269690b 100644
--- a/src/lib/pytornado/plot/downwash.py
+++ b/src/lib/pytornado/plot/downwash.py
@@ -54,6 +54,8 @@ def view_downwash(vlmdata, plt_settings):
         logger.error(err_msg)
         raise TypeError(err_msg)
 
+    other_figures = plt.get_fignums()
+
     try:
         figure = plt.figure(figsize=(9, 9))
         axes = figure.add_subplot(111)
@@ -65,4 +67,4 @@ def view_downwash(vlmdata, plt_settings):
 
         pt.show_and_save(plt_settings, (figure, 'downwash'))
     finally:
-        plt.close('all')
+        pt.close_figures(other_figures)
diff --git a/src/lib/pytornado/plot/plottools.py b/src/lib/pytornado/plot/plottools.py
index 113a19f..b65b4cb 100644
--- a/src/lib/pytornado/plot/plottools.py
+++ b/src/lib/pytornado/plot/plottools.py
@@ -232,6 +232,8 @@ def plot2d3d(aircraft, plot_name, plot_settings):
           A suffix '2D' or '3D' is added to 'plot_name'
     """
 
+    other_figures = plt.get_fignums()
+
     try:
         # ----- 3D plot -----
         figure_3d, axes_3d = _init_plot3d(title=aircraft.uid)
@@ -245,7 +247,20 @@ def plot2d3d(aircraft, plot_name, plot_settings):
         yield (figure_2d, axes_2d, figure_3d, axes_3d)
         show_and_save(plot_settings, (figure_3d, plot_name + '3D'), (figure_2d, plot_name + '2D'))
     finally:
-        plt.close('all')
+        close_figures(other_figures)
+
+
+def close_figures(other_figures):
+    """
+    Close all figures except the ones which belong to the caller
+
+    Args:
+        :other_figures: (list) Numbers of the figures which must stay open
+    """
+
+    for number in plt.get_fignums():
+        if number not in other_figures:
+            plt.close(number)
 
 
 def _init_plot3d(title=''):
-- 
2.43.0

