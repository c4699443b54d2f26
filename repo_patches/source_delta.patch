From 737f83c53264c35e64b1c9ed6ba05dde54a34c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 01/36] fix: let HDF5Exporter load fields that live on an
 extruded mesh

HDF5Exporter.load looked for the checkpoint layout (sfXC) on the mesh of the
function. Extruded meshes do not carry it, only their base mesh does, so that
FlowSolver.load_state always failed even if the 2D mesh was read from a
checkpoint.
---
 thetis/exporter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 4eb5001..f2d0e2c 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -222,7 +222,9 @@ class HDF5Exporter(ExporterBase):
         else:
             with CheckpointFile(filename, 'r') as f:
                 mesh = function.function_space().mesh()
-                if not hasattr(mesh, 'sfXC'):
+                # extruded meshes inherit the parallel layout of their base mesh
+                base_mesh = mesh._base_mesh if mesh.extruded else mesh
+                if not hasattr(base_mesh, 'sfXC'):
                     raise IOError('When loading fields from hdf5 checkpoint files, you should also read the mesh from checkpoint. See the documentation for `read_mesh_from_checkpoint()`')
                 g = f.load_function(mesh, function.name())
                 function.assign(g)
-- 
2.43.0


From 3be7e55dd73de3869dcd260ece7e5518eeed73a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 02/36] fix: treat the initial simulation time as seconds, not
 days

When a run with a start and an end date is continued from an export, the
start of the continued run was computed with timedelta(days=t), so the run
either failed or ended at a wrong time.
---
 thetis/solver.py   | 2 +-
 thetis/solver2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 7083b8e..b37038e 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1293,7 +1293,7 @@ class FlowSolver(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index ef5a31b..79a34df 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -1090,7 +1090,7 @@ class FlowSolver2d(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
-- 
2.43.0


From f293e436c862a7bc7060e88d1fe1e18499ecb77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 03/36] fix: infer the time of exports that carry no time stamp
 in load_state

HDF5Exporter.load reports a missing time attribute as None, which bypassed
the default and left simulation_time as None.
---
 thetis/solver.py   | 4 +++-
 thetis/solver2d.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index b37038e..5fe07ed 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1106,7 +1106,9 @@ class FlowSolver(FrozenClass):
             iteration = int(numpy.ceil(self.next_export_t/self.dt))
         if t is None:
             # prefer metadata time if available
-            t = metadata.get('time', iteration * self.dt)
+            t = metadata.get('time')
+            if t is None:
+                t = iteration * self.dt
         self.iteration = iteration
         self.simulation_time = t
 
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 79a34df..d2c65df 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -896,7 +896,9 @@ class FlowSolver2d(FrozenClass):
             iteration = int(numpy.ceil(self.next_export_t/self.dt))
         if t is None:
             # prefer metadata time if available
-            t = metadata.get('time', iteration * self.dt)
+            t = metadata.get('time')
+            if t is None:
+                t = iteration * self.dt
             if 'initial_time_iso' in metadata and metadata['initial_time_iso'] is not None:
                 initial_time = metadata['initial_time_iso']
                 if isinstance(initial_time, str):
-- 
2.43.0


From fe0eac8a687442bd86714683b8b0f364d70596bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 04/36] fix: keep the export times when a 2D run is continued

If the export interval is not a multiple of the time step, the continued run
restarted its export clock from the time of the loaded state instead of the
multiples of the export interval, so its exports (and every later one) were
late. FlowSolver (3D) already honours next_export_t set by load_state.
---
 thetis/solver2d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index d2c65df..d8d7a43 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -112,6 +112,8 @@ class FlowSolver2d(FrozenClass):
         self.iteration = 0
         self.i_export = 0
         self.next_export_t = self.simulation_time + self.options.simulation_export_time
+        # next export time of a run continued with load_state
+        self._continued_export_t = None
 
         self.callbacks = callback.CallbackManager()
         """
@@ -919,6 +921,8 @@ class FlowSolver2d(FrozenClass):
         else:
             offset = 1
         self.next_export_t += self.options.simulation_export_time
+        if i_export == i_stored and abs(t + self.options.simulation_export_time - self.next_export_t) < self.dt:
+            self._continued_export_t = self.next_export_t
         for e in self.exporters.values():
             e.set_next_export_ix(self.i_export + offset)
 
@@ -1038,6 +1042,10 @@ class FlowSolver2d(FrozenClass):
         t_epsilon = 1.0e-5
         cputimestamp = time_mod.perf_counter()
         next_export_t = self.simulation_time + self.options.simulation_export_time
+        if self._continued_export_t is not None:
+            # keep the export times of the run that is being continued
+            next_export_t = self._continued_export_t
+            self._continued_export_t = None
 
         dump_hdf5 = self.options.export_diagnostics and not self.options.no_exports
         if self.options.check_volume_conservation_2d:
-- 
2.43.0


From 6d470bb0d4a7ad5c7d16c86be7bc503640fbf090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 05/36] fix: use the time loop tolerance when load_state infers
 the iteration

ceil(i*export_time/dt) is off by one when the ratio is rounded up, e.g.
for dt = export_time = 0.1 and i = 3.
---
 thetis/solver.py   | 3 ++-
 thetis/solver2d.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 5fe07ed..207297e 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1103,7 +1103,8 @@ class FlowSolver(FrozenClass):
         self.i_export = i_export
         self.next_export_t = self.i_export*self.options.simulation_export_time
         if iteration is None:
-            iteration = int(numpy.ceil(self.next_export_t/self.dt))
+            # use the same tolerance as the time loop
+            iteration = int(numpy.ceil((self.next_export_t - 1.0e-5)/self.dt))
         if t is None:
             # prefer metadata time if available
             t = metadata.get('time')
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index d8d7a43..0fcae40 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -895,7 +895,8 @@ class FlowSolver2d(FrozenClass):
         self.i_export = i_export
         self.next_export_t = self.i_export*self.options.simulation_export_time
         if iteration is None:
-            iteration = int(numpy.ceil(self.next_export_t/self.dt))
+            # use the same tolerance as the time loop
+            iteration = int(numpy.ceil((self.next_export_t - 1.0e-5)/self.dt))
         if t is None:
             # prefer metadata time if available
             t = metadata.get('time')
-- 
2.43.0


From 502cc3e1f77ef1a643dbdd5a94816df90d6e1356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 06/36] fix: never leave an incomplete hdf5 export under its
 final name

HDF5Exporter wrote in place: a crash or a full disk during an export left a
truncated file under the final name, and destroyed the complete export that
a continued run was about to overwrite.
---
 thetis/exporter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index f2d0e2c..dd6203f 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -174,7 +174,11 @@ class HDF5Exporter(ExporterBase):
             with DumbCheckpoint(filename, mode=FILE_CREATE, comm=function.comm) as f:
                 f.store(function)
         else:
-            with CheckpointFile(filename, 'w') as f:
+            # write to a temporary file so that an interrupted export can never
+            # leave an incomplete file or destroy an existing export
+            comm = function.comm
+            tmp_filename = filename + '.tmp'
+            with CheckpointFile(tmp_filename, 'w') as f:
                 mesh = function.function_space().mesh()
                 f.save_mesh(mesh)
 
@@ -187,6 +191,10 @@ class HDF5Exporter(ExporterBase):
                         f.set_attr("/", "initial_time_iso", self.initial_time.isoformat())
 
                 f.save_function(function)
+            comm.barrier()
+            if comm.rank == 0:
+                os.replace(tmp_filename, filename)
+            comm.barrier()
 
         self.next_export_ix = iexport + 1
 
-- 
2.43.0


From f8c3fd2839c0d18efba70f8a69f07b2492b51713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 07/36] fix: honour a callback start or end time of zero

start_time=0 and end_time=0 were treated as if they were not given.
---
 thetis/callback.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 09ba053..c43ffbe 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -202,8 +202,8 @@ class DiagnosticCallback(ABC):
         self.include_time = include_time
         self._create_new_file = True
         self._hdf5_initialized = False
-        self.start_time = start_time or -numpy.inf
-        self.end_time = end_time or numpy.inf
+        self.start_time = -numpy.inf if start_time is None else start_time
+        self.end_time = numpy.inf if end_time is None else end_time
 
         init_date = self.solver_obj.options.simulation_initial_date
         if init_date is not None and include_time:
-- 
2.43.0


From ad67aa6048de5ed056978dc87397926fed6ef71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 08/36] fix: continue diagnostic hdf5 files without losing or
 repeating entries

A continued run could not append to a file that does not exist yet (KeyError),
failed if the export index was beyond the end of the file (continuing in
another output directory, callbacks with a start time), and repeated entries
that had been stored between the loaded export and the end of the previous run.
An entry whose write failed was left behind as zeros.
---
 thetis/callback.py | 48 +++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index c43ffbe..8623e74 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -88,7 +88,10 @@ class DiagnosticHDF5(object):
         self.nvars = len(varnames)
         self.array_dim = array_dim
         self.include_time = include_time
-        if comm.rank == 0 and new_file:
+        # when an existing file is continued, stored entries that the present
+        # run is about to repeat must be dropped
+        self._drop_repeated = not new_file
+        if comm.rank == 0 and (new_file or not os.path.isfile(filename)):
             # create empty file with correct datasets
             with h5py.File(filename, 'w') as hdf5file:
                 if include_time:
@@ -128,6 +131,13 @@ class DiagnosticHDF5(object):
     def _nentries(self, hdf5file):
         return hdf5file[self.varnames[0]].shape[0]
 
+    def _truncate(self, hdf5file, nentries):
+        """Removes all but the first nentries entries"""
+        names = list(self.varnames) + (['time'] if self.include_time else [])
+        for var in names:
+            arr = hdf5file[var]
+            arr.resize((nentries, ) + arr.shape[1:])
+
     @PETSc.Log.EventDecorator("thetis.DiagnosticHDF5.export")
     def export(self, variables, time=None, index=None):
         """
@@ -139,23 +149,31 @@ class DiagnosticHDF5(object):
         :type variables: tuple of float
         :kwarg time: time stamp of entry
         :type time: float
-        :kwarg int index: If provided, defines the time index in the file
+        :kwarg int index: If provided, defines the time index in the file. An
+            index beyond the end of the file appends a new entry.
         """
         if self.comm.rank == 0:
             with h5py.File(self.filename, 'a') as hdf5file:
-                if index is not None:
-                    nentries = self._nentries(hdf5file)
-                    assert index <= nentries, 'time index out of range {:} <= {:} \n  in file {:}'.format(index, nentries, self.filename)
-                    expand_required = index == nentries
-                    ix = index
-                if index is None or expand_required:
-                    self._expand(hdf5file)
-                    ix = self._nentries(hdf5file) - 1
-                if self.include_time:
-                    assert time is not None, 'time should be provided as 2nd argument to export()'
-                    hdf5file['time'][ix] = time
-                for i in range(self.nvars):
-                    hdf5file[self.varnames[i]][ix, :] = variables[i]
+                if self._drop_repeated and self.include_time and time is not None:
+                    time_array = hdf5file['time']
+                    t_epsilon = 1.0e-5
+                    limit = numpy.array(time - t_epsilon).astype(time_array.dtype)
+                    self._truncate(hdf5file, int(numpy.sum(time_array[:, 0] < limit)))
+                self._drop_repeated = False
+                nentries = self._nentries(hdf5file)
+                ix = nentries if index is None else min(index, nentries)
+                try:
+                    if ix == nentries:
+                        self._expand(hdf5file)
+                    if self.include_time:
+                        assert time is not None, 'time should be provided as 2nd argument to export()'
+                        hdf5file['time'][ix] = time
+                    for i in range(self.nvars):
+                        hdf5file[self.varnames[i]][ix, :] = variables[i]
+                except Exception:
+                    # do not leave an incomplete entry behind
+                    self._truncate(hdf5file, nentries)
+                    raise
                 hdf5file.close()
 
 
-- 
2.43.0


From f29b3f7e7773ab67fe0fe6dd455292dcf6d00615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 09/36] fix: append to diagnostic files when a 2D run is
 continued

FlowSolver2d.load_state left all callbacks in create mode, so that the first
export of a continued run erased the diagnostic history. FlowSolver (3D)
already switches to append mode.
---
 thetis/solver2d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 0fcae40..a1be8fb 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -145,6 +145,7 @@ class FlowSolver2d(FrozenClass):
         if 'tracer_2d' in field_metadata:
             field_metadata.pop('tracer_2d')
         self.solve_tracer = False
+        self._simulation_continued = False
         self.keep_log = keep_log
         self._field_preproc_funcs = {}
 
@@ -868,6 +869,7 @@ class FlowSolver2d(FrozenClass):
             self.initialize()
         if outputdir is None:
             outputdir = self.options.output_directory
+        self._simulation_continued = True
         # create new ExportManager with desired outputdir
         state_fields = ['uv_2d', 'elev_2d']
         hdf5_dir = os.path.join(outputdir, 'hdf5')
@@ -1095,6 +1097,12 @@ class FlowSolver2d(FrozenClass):
                                                  append_to_log=True)
             self.add_callback(c, eval_interval='export')
 
+        if self._simulation_continued:
+            # set all callbacks to append mode
+            for m in self.callbacks:
+                for k in self.callbacks[m]:
+                    self.callbacks[m][k].set_write_mode('append')
+
         initial_simulation_time = self.simulation_time
         internal_iteration = 0
 
-- 
2.43.0


From 5bbeb329294f92813085f46027b716bd5c19841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 10/36] fix: let a continued diagnostic file drop an entry that
 a crash left incomplete

---
 thetis/callback.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 8623e74..1be59e5 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -95,8 +95,10 @@ class DiagnosticHDF5(object):
             # create empty file with correct datasets
             with h5py.File(filename, 'w') as hdf5file:
                 if include_time:
+                    # an entry whose time was never written is incomplete
                     ds = hdf5file.create_dataset(
-                        'time', (0, 1), maxshape=(None, 1), dtype=dtype)
+                        'time', (0, 1), maxshape=(None, 1), dtype=dtype,
+                        fillvalue=numpy.nan)
                     if var_attrs is not None and 'time' in var_attrs:
                         ds.attrs.update(var_attrs['time'])
                 dim_list = array_dim
-- 
2.43.0


From 93e3d0d9dbe3d064afe577192e169cde1a198b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 11/36] fix: never leave an incompletely created diagnostic
 file under its final name

---
 thetis/callback.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 1be59e5..ece0a1f 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -92,8 +92,10 @@ class DiagnosticHDF5(object):
         # run is about to repeat must be dropped
         self._drop_repeated = not new_file
         if comm.rank == 0 and (new_file or not os.path.isfile(filename)):
-            # create empty file with correct datasets
-            with h5py.File(filename, 'w') as hdf5file:
+            # create empty file with correct datasets; it gets its final name
+            # once it is complete
+            tmp_filename = filename + '.tmp'
+            with h5py.File(tmp_filename, 'w') as hdf5file:
                 if include_time:
                     # an entry whose time was never written is incomplete
                     ds = hdf5file.create_dataset(
@@ -115,6 +117,7 @@ class DiagnosticHDF5(object):
                         ds.attrs.update(var_attrs[var])
                 if attrs is not None:
                     hdf5file.attrs.update(attrs)
+            os.replace(tmp_filename, filename)
 
     def _expand_array(self, hdf5file, varname):
         """Expands array varname by 1 entry"""
-- 
2.43.0


From 6682b94a1545218171d43b54de452cc9a1785fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 12/36] fix: let several solver objects use the same label for
 their own fields

---
 thetis/field_defs.py |  5 +++++
 thetis/solver.py     | 16 ++++++++++------
 thetis/solver2d.py   | 18 ++++++++++--------
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/thetis/field_defs.py b/thetis/field_defs.py
index fa0733a..1a8f917 100644
--- a/thetis/field_defs.py
+++ b/thetis/field_defs.py
@@ -256,3 +256,8 @@ field_metadata['turbine_density_2d'] = {
     'unit': 'm-2',
     'filename': 'turbine_density_2d'
 }
+
+standard_fields = frozenset(field_metadata)
+"""
+Labels of the fields defined by Thetis
+"""
diff --git a/thetis/solver.py b/thetis/solver.py
index 207297e..eb0316b 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -13,11 +13,11 @@ import time as time_mod
 from mpi4py import MPI
 from . import exporter
 import weakref
-from .field_defs import field_metadata
+from .field_defs import field_metadata, standard_fields
 from .options import ModelOptions3d
 from . import callback
 from .log import *
-from collections import OrderedDict
+from collections import ChainMap, OrderedDict
 import numpy
 import datetime
 
@@ -160,6 +160,8 @@ class FlowSolver(FrozenClass):
         self._simulation_continued = False
         self.keep_log = keep_log
         self._field_preproc_funcs = {}
+        # metadata of the fields of this solver object
+        self._field_metadata = ChainMap({}, field_metadata)
 
     def compute_dx_factor(self):
         """
@@ -632,7 +634,8 @@ class FlowSolver(FrozenClass):
         assert shortname is None or isinstance(shortname, str)
         assert isinstance(unit, str)
         assert preproc_func is None or callable(preproc_func)
-        assert label not in field_metadata, f"Field '{label}' already exists."
+        # metadata of user-defined fields may stem from another solver object
+        assert label not in self.fields and label not in standard_fields, f"Field '{label}' already exists."
         assert ' ' not in label, "Labels cannot contain spaces"
         assert ' ' not in filename, "Filenames cannot contain spaces"
         field_metadata[label] = {
@@ -641,6 +644,7 @@ class FlowSolver(FrozenClass):
             'unit': unit,
             'filename': filename,
         }
+        self._field_metadata[label] = field_metadata[label]
         self.fields[label] = function
         if preproc_func is not None:
             self._field_preproc_funcs[label] = preproc_func
@@ -881,7 +885,7 @@ class FlowSolver(FrozenClass):
             e = exporter.ExportManager(self.options.output_directory,
                                        self.options.fields_to_export,
                                        self.fields,
-                                       field_metadata,
+                                       self._field_metadata,
                                        export_type='vtk',
                                        verbose=self.options.verbose > 0,
                                        preproc_funcs=self._field_preproc_funcs)
@@ -890,7 +894,7 @@ class FlowSolver(FrozenClass):
             e = exporter.ExportManager(hdf5_dir,
                                        self.options.fields_to_export_hdf5,
                                        self.fields,
-                                       field_metadata,
+                                       self._field_metadata,
                                        export_type='hdf5',
                                        verbose=self.options.verbose > 0,
                                        preproc_funcs=self._field_preproc_funcs,
@@ -1061,7 +1065,7 @@ class FlowSolver(FrozenClass):
         e = exporter.ExportManager(hdf5_dir,
                                    state_fields,
                                    self.fields,
-                                   field_metadata,
+                                   self._field_metadata,
                                    export_type='hdf5',
                                    legacy_mode=legacy_mode,
                                    verbose=self.options.verbose > 0)
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index a1be8fb..a253840 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -15,11 +15,11 @@ import time as time_mod
 from mpi4py import MPI
 from . import exporter
 from .turbines import TidalTurbineFarm, DiscreteTidalTurbineFarm
-from .field_defs import field_metadata
+from .field_defs import field_metadata, standard_fields
 from .options import ModelOptions2d
 from . import callback
 from .log import *
-from collections import OrderedDict
+from collections import ChainMap, OrderedDict
 import thetis.limiter as limiter
 import numpy
 import datetime
@@ -142,12 +142,12 @@ class FlowSolver2d(FrozenClass):
 
         self.bnd_functions = {'shallow_water': {}, 'tracer': {}, 'sediment': {}}
 
-        if 'tracer_2d' in field_metadata:
-            field_metadata.pop('tracer_2d')
         self.solve_tracer = False
         self._simulation_continued = False
         self.keep_log = keep_log
         self._field_preproc_funcs = {}
+        # metadata of the fields of this solver object
+        self._field_metadata = ChainMap({}, field_metadata)
 
     @PETSc.Log.EventDecorator("thetis.FlowSolver2d.compute_time_step")
     def compute_time_step(self, u_scale=Constant(0.0)):
@@ -374,7 +374,8 @@ class FlowSolver2d(FrozenClass):
         assert shortname is None or isinstance(shortname, str)
         assert isinstance(unit, str)
         assert preproc_func is None or callable(preproc_func)
-        assert label not in field_metadata, f"Field '{label}' already exists."
+        # metadata of user-defined fields may stem from another solver object
+        assert label not in self.fields and label not in standard_fields, f"Field '{label}' already exists."
         assert ' ' not in label, "Labels cannot contain spaces"
         assert ' ' not in filename, "Filenames cannot contain spaces"
         field_metadata[label] = {
@@ -383,6 +384,7 @@ class FlowSolver2d(FrozenClass):
             'unit': unit,
             'filename': filename,
         }
+        self._field_metadata[label] = field_metadata[label]
         self.fields[label] = function
         if preproc_func is not None:
             self._field_preproc_funcs[label] = preproc_func
@@ -715,7 +717,7 @@ class FlowSolver2d(FrozenClass):
             e = exporter.ExportManager(self.options.output_directory,
                                        self.options.fields_to_export,
                                        self.fields,
-                                       field_metadata,
+                                       self._field_metadata,
                                        export_type='vtk',
                                        verbose=self.options.verbose > 0,
                                        preproc_funcs=self._field_preproc_funcs)
@@ -724,7 +726,7 @@ class FlowSolver2d(FrozenClass):
             e = exporter.ExportManager(hdf5_dir,
                                        self.options.fields_to_export_hdf5,
                                        self.fields,
-                                       field_metadata,
+                                       self._field_metadata,
                                        export_type='hdf5',
                                        verbose=self.options.verbose > 0,
                                        preproc_funcs=self._field_preproc_funcs,
@@ -876,7 +878,7 @@ class FlowSolver2d(FrozenClass):
         e = exporter.ExportManager(hdf5_dir,
                                    state_fields,
                                    self.fields,
-                                   field_metadata,
+                                   self._field_metadata,
                                    export_type='hdf5',
                                    legacy_mode=legacy_mode,
                                    verbose=self.options.verbose > 0)
-- 
2.43.0


From 13fe08e266abe16b9ef7b9e2a65b07d658f6b057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 13/36] fix: keep the file count of VTK exports in step with
 the export number

---
 thetis/exporter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index dd6203f..3460acc 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -92,6 +92,7 @@ class VTKExporter(ExporterBase):
         path = os.path.join(path, self.filename)
         self.outfile = VTKFile(path)
         self.cast_operators = {}
+        self.set_next_export_ix(next_export_ix)
 
     def set_next_export_ix(self, next_export_ix):
         """Sets the index of next export"""
@@ -116,6 +117,8 @@ class VTKExporter(ExporterBase):
             output = op.assemble()
         # ensure correct output function name
         output.rename(name=self.func_name)
+        # a failed write must not shift the file count
+        self.outfile.counter = itertools.count(start=self.next_export_ix)
         self.outfile.write(output, time=self.next_export_ix)
         self.next_export_ix += 1
 
-- 
2.43.0


From 9bab0e3f0a65b85bc907132506e58c825486e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 14/36] fix: do not repeat an export whose preprocessing raised
 a TypeError

---
 thetis/solver.py   | 7 ++++---
 thetis/solver2d.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index eb0316b..3995d67 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -20,6 +20,7 @@ from .log import *
 from collections import ChainMap, OrderedDict
 import numpy
 import datetime
+import inspect
 
 
 class FlowSolver(FrozenClass):
@@ -999,10 +1000,10 @@ class FlowSolver(FrozenClass):
         # TODO find a cleaner way of doing this ...
         self.fields.uv_3d += self.fields.uv_dav_3d
         for e in self.exporters.values():
-            try:
+            if 'time' in inspect.signature(e.export).parameters:
                 e.export(time=time)
-            except TypeError:
-                # exporter doesn't accept time (VTKExporter, old HDF5)
+            else:
+                # exporter doesn't accept time
                 e.export()
         # restore uv_3d
         self.fields.uv_3d -= self.fields.uv_dav_3d
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index a253840..2955306 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -23,6 +23,7 @@ from collections import ChainMap, OrderedDict
 import thetis.limiter as limiter
 import numpy
 import datetime
+import inspect
 
 
 class FlowSolver2d(FrozenClass):
@@ -815,10 +816,10 @@ class FlowSolver2d(FrozenClass):
 
         # Export each field
         for e in self.exporters.values():
-            try:
+            if 'time' in inspect.signature(e.export).parameters:
                 e.export(time=time)
-            except TypeError:
-                # exporter doesn't accept time (VTKExporter, old HDF5)
+            else:
+                # exporter doesn't accept time
                 e.export()
 
     @PETSc.Log.EventDecorator("thetis.FlowSolver2d.load_state")
-- 
2.43.0


From 50ec7929307b5e3fecec17e5cc06fc86ec695437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 15/36] fix: restore the 3D velocity when an export fails

---
 thetis/solver.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 3995d67..29428b7 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -999,14 +999,16 @@ class FlowSolver(FrozenClass):
         # set uv to total uv instead of deviation from depth average
         # TODO find a cleaner way of doing this ...
         self.fields.uv_3d += self.fields.uv_dav_3d
-        for e in self.exporters.values():
-            if 'time' in inspect.signature(e.export).parameters:
-                e.export(time=time)
-            else:
-                # exporter doesn't accept time
-                e.export()
-        # restore uv_3d
-        self.fields.uv_3d -= self.fields.uv_dav_3d
+        try:
+            for e in self.exporters.values():
+                if 'time' in inspect.signature(e.export).parameters:
+                    e.export(time=time)
+                else:
+                    # exporter doesn't accept time
+                    e.export()
+        finally:
+            # restore uv_3d
+            self.fields.uv_3d -= self.fields.uv_dav_3d
 
     @PETSc.Log.EventDecorator("thetis.FlowSolver.load_state")
     def load_state(self, i_stored, outputdir=None, t=None, iteration=None,
-- 
2.43.0


From bde59f7151dccaa55e0d0e7a0ea9705f82a643d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 16/36] fix: do not share preprocessing functions between
 export managers

---
 thetis/exporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 3460acc..eebaf84 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -275,7 +275,7 @@ class ExportManager(object):
     def __init__(self, outputdir, fields_to_export, functions, field_metadata,
                  export_type='vtk', next_export_ix=0, verbose=False,
                  legacy_mode=False,
-                 preproc_funcs={},
+                 preproc_funcs=None,
                  include_time=False, initial_time=None):
         """
         :arg string outputdir: directory where files are stored
@@ -296,7 +296,7 @@ class ExportManager(object):
         self.functions.update(functions)
         self.field_metadata = field_metadata
         self.verbose = verbose
-        self.preproc_callbacks = preproc_funcs
+        self.preproc_callbacks = {} if preproc_funcs is None else preproc_funcs
         self.include_time = include_time
         self.initial_time = initial_time
         # for each field create an exporter
-- 
2.43.0


From d8d67aaa28f7f5310c1f139c8185c28b45814ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 17/36] fix: let an interrupted clean-up of a diagnostic file
 be resumed

---
 thetis/callback.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index ece0a1f..a12f71f 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -138,7 +138,8 @@ class DiagnosticHDF5(object):
 
     def _truncate(self, hdf5file, nentries):
         """Removes all but the first nentries entries"""
-        names = list(self.varnames) + (['time'] if self.include_time else [])
+        # time first: it tells which entries are complete if this is cut short
+        names = (['time'] if self.include_time else []) + list(self.varnames)
         for var in names:
             arr = hdf5file[var]
             arr.resize((nentries, ) + arr.shape[1:])
-- 
2.43.0


From 20f2eea8b0483ac4dbe74b25c1697bc4dd0901f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 18/36] fix: do not truncate and duplicate the log of a 3D run

---
 thetis/solver.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 29428b7..d69eec4 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -659,13 +659,6 @@ class FlowSolver(FrozenClass):
         if 'uv_3d' not in self.fields:
             self.create_fields()
 
-        if self.options.log_output and not self.options.no_exports:
-            logfile = os.path.join(create_directory(self.options.output_directory), 'log')
-            mode = "a" if self.keep_log else "w"
-            filehandler = logging.logging.FileHandler(logfile, mode=mode)
-            filehandler.setFormatter(logging.logging.Formatter('%(message)s'))
-            output_logger.addHandler(filehandler)
-
         self.depth = DepthExpression(self.fields.bathymetry_2d,
                                      use_nonlinear_equations=self.options.use_nonlinear_equations)
 
-- 
2.43.0


From ad13afdc06b67298a18607dd3fadd5a726cd2ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 19/36] fix: append to the log file when asked to

---
 thetis/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/log.py b/thetis/log.py
index e4e06dc..4893e8e 100644
--- a/thetis/log.py
+++ b/thetis/log.py
@@ -136,7 +136,7 @@ def set_log_directory(output_directory, comm=COMM_WORLD, mode='w'):
     create_directory(output_directory)
     if comm.rank == 0:
         buffer_content = thetis_log_config.mem_buffer.getvalue()
-        with open(logfile, 'w') as f:
+        with open(logfile, 'w' if mode == 'w' else 'a') as f:
             f.write(buffer_content)
     rm_buf_handlers()
     thetis_log_config.filename = logfile
-- 
2.43.0


From f53cc9289a0d4dfd4437dbf3ff48dbd634ab61ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 20/36] fix: do not duplicate log messages after
 set_thetis_loggers

---
 thetis/log.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/thetis/log.py b/thetis/log.py
index 4893e8e..8c9d1fe 100644
--- a/thetis/log.py
+++ b/thetis/log.py
@@ -64,12 +64,16 @@ def set_thetis_loggers(comm=COMM_WORLD):
     for name, fmt in logger_format.items():
         logger = logging.getLogger(name)
         logger.propagate = False
-        for handler in logger.handlers:
-            if isinstance(handler, logging.StreamHandler):
+        for handler in list(logger.handlers):
+            # log files are assigned by set_log_directory
+            if isinstance(handler, logging.StreamHandler) \
+                    and not isinstance(handler, logging.FileHandler):
                 logger.removeHandler(handler)
 
         add_stream_handler()
-        add_stream_handler(buffered=True)
+        if thetis_log_config.filename is None:
+            # collect messages until there is a log file
+            add_stream_handler(buffered=True)
 
 
 def set_log_directory(output_directory, comm=COMM_WORLD, mode='w'):
-- 
2.43.0


From 6e30a573200f6e6dec21c14ab5938d0d22153680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 21/36] fix: keep the present log file when changing to another
 one fails

---
 thetis/log.py | 48 ++++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/thetis/log.py b/thetis/log.py
index 8c9d1fe..8fbf8ea 100644
--- a/thetis/log.py
+++ b/thetis/log.py
@@ -101,51 +101,47 @@ def set_log_directory(output_directory, comm=COMM_WORLD, mode='w'):
             else:
                 os.makedirs(dir)
 
-    def rm_handlers(cls=logging.FileHandler):
+    def rm_handlers(cls):
+        removed = []
         for name in logger_format:
             logger = logging.getLogger(name)
-            for handler in logger.handlers:
+            for handler in list(logger.handlers):
                 if isinstance(handler, cls):
                     logger.removeHandler(handler)
+                    removed.append(handler)
+        return removed
 
-    def rm_file_handlers():
-        rm_handlers(cls=logging.FileHandler)
-
-    def rm_buf_handlers():
-        rm_handlers(cls=BufferHandler)
-
-    def assign_file_handler(logfile):
-
+    def create_handlers(logfile):
+        handlers = {}
         for name, fmt in logger_format.items():
-            logger = logging.getLogger(name)
             if comm.rank == 0:
-                new_handler = logging.FileHandler(logfile, mode='a')
-                new_handler.setFormatter(logging.Formatter(fmt))
+                handler = logging.FileHandler(logfile, mode='a')
+                handler.setFormatter(logging.Formatter(fmt))
             else:
-                new_handler = logging.NullHandler()
-            logger.addHandler(new_handler)
+                handler = logging.NullHandler()
+            handlers[name] = handler
+        return handlers
 
     logfile = os.path.join(output_directory, 'log')
     if thetis_log_config.filename == logfile:
         # no change
         return
-    different_file = thetis_log_config.filename is not None
-    if different_file:
-        old_file = str(thetis_log_config.filename)
-        rm_file_handlers()
-    if mode == 'w' and os.path.isfile(logfile):
-        # silently remove previous log
-        if comm.rank == 0:
-            os.remove(logfile)
+    old_file = thetis_log_config.filename
+    # the old log file remains in use unless all of this succeeds
     create_directory(output_directory)
     if comm.rank == 0:
         buffer_content = thetis_log_config.mem_buffer.getvalue()
         with open(logfile, 'w' if mode == 'w' else 'a') as f:
             f.write(buffer_content)
-    rm_buf_handlers()
+    new_handlers = create_handlers(logfile)
+    rm_handlers(BufferHandler)
+    old_handlers = rm_handlers(logging.FileHandler)
+    for name, handler in new_handlers.items():
+        logging.getLogger(name).addHandler(handler)
     thetis_log_config.filename = logfile
-    assign_file_handler(logfile)
-    if different_file:
+    for handler in old_handlers:
+        handler.close()
+    if old_file is not None:
         msg = (f'Setting a log file "{logfile}" that differs from previous '
                f'"{old_file}", removing old handler')
         warning(msg)  # to new log
-- 
2.43.0


From 5e409b1b22790cb79375a685b24831105b9843e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 22/36] fix: export 3D runs on time when load_state resets the
 counters

---
 thetis/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thetis/solver.py b/thetis/solver.py
index d69eec4..50bf846 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1129,6 +1129,9 @@ class FlowSolver(FrozenClass):
         else:
             offset = 1
         self.next_export_t += self.options.simulation_export_time
+        if i_export != i_stored or abs(t + self.options.simulation_export_time - self.next_export_t) >= self.dt:
+            # time or export count was reset
+            self.next_export_t = t + self.options.simulation_export_time
         for e in self.exporters.values():
             e.set_next_export_ix(self.i_export + offset)
 
-- 
2.43.0


From 55b5212138a35928506921c452cc45963e4f9b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 23/36] fix: interpolate time series at the last stored time
 stamp

---
 thetis/interpolation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index 8c6b924..dd36eeb 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -806,6 +806,11 @@ class LinearTimeInterpolator(object):
         :retuns: list of numpy arrays
         """
         prev_id = self.timesearch.find(t, previous=True)
+        if abs(t - prev_id[2]) <= TIMESEARCH_TOL:
+            # t is a stored time stamp; there is no next one if it is the last
+            prev = self._get_from_cache(prev_id)
+            self._clean_cache([prev_id])
+            return [1.0*p for p in prev]
         next_id = self.timesearch.find(t, previous=False)
 
         prev = self._get_from_cache(prev_id)
-- 
2.43.0


From 9f86b06430ab202cdf438e42213f23e606c1aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 24/36] fix: refuse new attributes also after an unfrozen
 method has failed

---
 thetis/utility.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index a6654b8..2c66226 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -49,9 +49,11 @@ def unfrozen(method):
     def wrapper(self, *args, **kwargs):
         self._isfrozen = False
         self._unfreezedepth += 1
-        ret = method(self, *args, **kwargs)
-        self._unfreezedepth -= 1
-        self._isfrozen = self._unfreezedepth == 0
+        try:
+            ret = method(self, *args, **kwargs)
+        finally:
+            self._unfreezedepth -= 1
+            self._isfrozen = self._unfreezedepth == 0
         return ret
 
     return wrapper
-- 
2.43.0


From 24c6f7ce4e2f7ae7f4e59e992a60f2f60edf3ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 25/36] fix: create exporters again if their creation has
 failed

---
 thetis/solver.py   | 7 ++++---
 thetis/solver2d.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 50bf846..2da7456 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -874,7 +874,7 @@ class FlowSolver(FrozenClass):
 
         # ----- File exporters
         # create export_managers and store in a list
-        self.exporters = OrderedDict()
+        exporters = OrderedDict()
         if not self.options.no_exports:
             e = exporter.ExportManager(self.options.output_directory,
                                        self.options.fields_to_export,
@@ -883,7 +883,7 @@ class FlowSolver(FrozenClass):
                                        export_type='vtk',
                                        verbose=self.options.verbose > 0,
                                        preproc_funcs=self._field_preproc_funcs)
-            self.exporters['vtk'] = e
+            exporters['vtk'] = e
             hdf5_dir = os.path.join(self.options.output_directory, 'hdf5')
             e = exporter.ExportManager(hdf5_dir,
                                        self.options.fields_to_export_hdf5,
@@ -894,7 +894,8 @@ class FlowSolver(FrozenClass):
                                        preproc_funcs=self._field_preproc_funcs,
                                        include_time=True,
                                        initial_time=getattr(self.options, 'simulation_initial_date', None))
-            self.exporters['hdf5'] = e
+            exporters['hdf5'] = e
+        self.exporters = exporters
 
     def initialize(self):
         """
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 2955306..3a3f9f9 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -713,7 +713,7 @@ class FlowSolver2d(FrozenClass):
         """
         if not hasattr(self, 'timestepper'):
             self.create_timestepper()
-        self.exporters = OrderedDict()
+        exporters = OrderedDict()
         if not self.options.no_exports:
             e = exporter.ExportManager(self.options.output_directory,
                                        self.options.fields_to_export,
@@ -722,7 +722,7 @@ class FlowSolver2d(FrozenClass):
                                        export_type='vtk',
                                        verbose=self.options.verbose > 0,
                                        preproc_funcs=self._field_preproc_funcs)
-            self.exporters['vtk'] = e
+            exporters['vtk'] = e
             hdf5_dir = os.path.join(self.options.output_directory, 'hdf5')
             e = exporter.ExportManager(hdf5_dir,
                                        self.options.fields_to_export_hdf5,
@@ -733,7 +733,8 @@ class FlowSolver2d(FrozenClass):
                                        preproc_funcs=self._field_preproc_funcs,
                                        include_time=True,
                                        initial_time=getattr(self.options, 'simulation_initial_date', None))
-            self.exporters['hdf5'] = e
+            exporters['hdf5'] = e
+        self.exporters = exporters
 
     def initialize(self):
         """
-- 
2.43.0


From f9100fce6c76f9f9adc332cb5c68a31987dcbb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 26/36] fix: allow create_equations to be repeated after
 invalid turbine farm options

---
 thetis/solver2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 3a3f9f9..caf4b81 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -462,7 +462,6 @@ class FlowSolver2d(FrozenClass):
         """
         if not hasattr(self.fields, 'uv_2d'):
             self.create_fields()
-        self.equations = AttrDict()
 
         # tidal farms, if any
         if len(self.options.tidal_turbine_farms) + len(self.options.discrete_tidal_turbine_farms) > 0:
@@ -489,6 +488,7 @@ class FlowSolver2d(FrozenClass):
                     self.tidal_farms.append(DiscreteTidalTurbineFarm(self.mesh2d, fdx, farm_options))
         else:
             self.tidal_farms = None
+        self.equations = AttrDict()
         # Shallow water equations for hydrodynamic modelling
         self.equations.sw = shallowwater_eq.ShallowWaterEquations(
             self.fields.solution_2d.function_space(),
-- 
2.43.0


From e9bc9a91337b01ac5f0efc573b2af0a59c168a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 27/36] fix: leave the solver state as it was if load_state
 fails

---
 thetis/solver.py   | 44 ++++++++++++++++++++++----------------------
 thetis/solver2d.py | 11 ++++++++---
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 2da7456..1e2966c 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1054,7 +1054,6 @@ class FlowSolver(FrozenClass):
             self.initialize()
         if outputdir is None:
             outputdir = self.options.output_directory
-        self._simulation_continued = True
         # create new ExportManager with desired outputdir
         state_fields = ['uv_2d', 'elev_2d', 'uv_3d',
                         'salt_3d', 'temp_3d', 'tke_3d', 'psi_3d']
@@ -1067,25 +1066,31 @@ class FlowSolver(FrozenClass):
                                    legacy_mode=legacy_mode,
                                    verbose=self.options.verbose > 0)
         # Load fields and collect metadata
-        meta_uv_2d = e.exporters['uv_2d'].load(i_stored, self.fields.uv_2d)
-        meta_elev = e.exporters['elev_2d'].load(i_stored, self.fields.elev_2d)
-        e.exporters['uv_3d'].load(i_stored, self.fields.uv_3d)
-        # NOTE remove mean from uv_3d
-        self.timestepper._remove_depth_average_from_uv_3d()
-        salt = temp = tke = psi = None
+        load_fields = ['uv_2d', 'elev_2d', 'uv_3d']
         if self.options.solve_salinity:
-            salt = self.fields.salt_3d
-            e.exporters['salt_3d'].load(i_stored, salt)
+            load_fields.append('salt_3d')
         if self.options.solve_temperature:
-            temp = self.fields.temp_3d
-            e.exporters['temp_3d'].load(i_stored, temp)
+            load_fields.append('temp_3d')
         if self.options.use_turbulence:
-            if 'tke_3d' in self.fields:
-                tke = self.fields.tke_3d
-                e.exporters['tke_3d'].load(i_stored, tke)
-            if 'psi_3d' in self.fields:
-                psi = self.fields.psi_3d
-                e.exporters['psi_3d'].load(i_stored, psi)
+            load_fields += [f for f in ('tke_3d', 'psi_3d') if f in self.fields]
+        present_state = {f: self.fields[f].copy(deepcopy=True) for f in load_fields}
+        metadata = {}
+        try:
+            for f in load_fields:
+                # keep metadata from one 2D file (they should agree)
+                meta = e.exporters[f].load(i_stored, self.fields[f])
+                if f in ['uv_2d', 'elev_2d']:
+                    metadata.update(meta)
+        except Exception:
+            for f in load_fields:
+                self.fields[f].assign(present_state[f])
+            raise
+        self._simulation_continued = True
+        # NOTE remove mean from uv_3d
+        self.timestepper._remove_depth_average_from_uv_3d()
+        salt, temp, tke, psi = [
+            self.fields[f] if f in load_fields else None
+            for f in ('salt_3d', 'temp_3d', 'tke_3d', 'psi_3d')]
         self.assign_initial_conditions(elev=self.fields.elev_2d,
                                        uv_2d=self.fields.uv_2d,
                                        uv_3d=self.fields.uv_3d,
@@ -1093,11 +1098,6 @@ class FlowSolver(FrozenClass):
                                        tke=tke, psi=psi,
                                        )
 
-        # choose metadata from one file (they should agree)
-        metadata = {}
-        metadata.update(meta_uv_2d)
-        metadata.update(meta_elev)
-
         # time stepper bookkeeping for export time step
         if i_export is None:
             i_export = i_stored
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index caf4b81..a257cd2 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -873,7 +873,6 @@ class FlowSolver2d(FrozenClass):
             self.initialize()
         if outputdir is None:
             outputdir = self.options.output_directory
-        self._simulation_continued = True
         # create new ExportManager with desired outputdir
         state_fields = ['uv_2d', 'elev_2d']
         hdf5_dir = os.path.join(outputdir, 'hdf5')
@@ -886,8 +885,14 @@ class FlowSolver2d(FrozenClass):
                                    verbose=self.options.verbose > 0)
 
         # Load both fields and collect metadata
-        meta_uv = e.exporters['uv_2d'].load(i_stored, self.fields.uv_2d)
-        meta_elev = e.exporters['elev_2d'].load(i_stored, self.fields.elev_2d)
+        present_state = self.fields.solution_2d.copy(deepcopy=True)
+        try:
+            meta_uv = e.exporters['uv_2d'].load(i_stored, self.fields.uv_2d)
+            meta_elev = e.exporters['elev_2d'].load(i_stored, self.fields.elev_2d)
+        except Exception:
+            self.fields.solution_2d.assign(present_state)
+            raise
+        self._simulation_continued = True
         self.assign_initial_conditions()
 
         # choose metadata from one file (they should agree)
-- 
2.43.0


From a754b54e04f25f56ee493e2ad2737b04d6505743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 28/36] fix: update the advective velocity correction only with
 suspended sediment

---
 thetis/sediment_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index 02328cb..f688dd5 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -413,5 +413,5 @@ class SedimentModel(object):
                 # slope effect angle correction due to gravity
                 self.stress.interpolate(self.rhow*Constant(0.5)*self.qfc*self.unorm)
 
-        if self.use_advective_velocity_correction:
+        if self.solve_suspended_sediment and self.use_advective_velocity_correction:
             self.correction_factor_model.update()
-- 
2.43.0


From 82a688d5aba021b1fc8e9c5df24fc0c87ab505d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 29/36] fix: restore tracers, sediment, bed and non-hydrostatic
 fields in load_state

---
 thetis/solver2d.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index a257cd2..7759173 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -855,6 +855,10 @@ class FlowSolver2d(FrozenClass):
         stored in hdf5 format. For the hydrodynamics the required state
         variables are: `elev_2d`, and `uv_2d`.
 
+        Tracers and, if they are being solved for, `sediment_2d`,
+        `bathymetry_2d` (Exner equation), `q_2d` and `w_2d` (non-hydrostatic
+        model) are loaded if they have been stored.
+
         Simulation time and iteration can be recovered automatically provided
         that the model setup is the same (e.g. time step and export_time).
 
@@ -874,7 +878,13 @@ class FlowSolver2d(FrozenClass):
         if outputdir is None:
             outputdir = self.options.output_directory
         # create new ExportManager with desired outputdir
-        state_fields = ['uv_2d', 'elev_2d']
+        state_fields = ['uv_2d', 'elev_2d'] + list(self.options.tracer)
+        if self.options.sediment_model_options.solve_suspended_sediment:
+            state_fields.append('sediment_2d')
+        if self.options.sediment_model_options.solve_exner:
+            state_fields.append('bathymetry_2d')
+        if self.options.nh_model_options.solve_nonhydrostatic_pressure:
+            state_fields += ['q_2d', 'w_2d']
         hdf5_dir = os.path.join(outputdir, 'hdf5')
         e = exporter.ExportManager(hdf5_dir,
                                    state_fields,
@@ -885,20 +895,26 @@ class FlowSolver2d(FrozenClass):
                                    verbose=self.options.verbose > 0)
 
         # Load both fields and collect metadata
-        present_state = self.fields.solution_2d.copy(deepcopy=True)
+        load_fields = [f for f in state_fields
+                       if f in ['uv_2d', 'elev_2d'] or os.path.isfile(e.exporters[f].gen_filename(i_stored))]
+        for f in state_fields:
+            if f not in load_fields:
+                warning(f'Field "{f}" is not available in export {i_stored} of "{hdf5_dir}" and is not loaded')
+        present_state = {f: self.fields[f].copy(deepcopy=True) for f in load_fields}
+        metadata = {}
         try:
-            meta_uv = e.exporters['uv_2d'].load(i_stored, self.fields.uv_2d)
-            meta_elev = e.exporters['elev_2d'].load(i_stored, self.fields.elev_2d)
+            for f in load_fields:
+                # keep metadata of the hydrodynamics (they should agree)
+                meta = e.exporters[f].load(i_stored, self.fields[f])
+                if f in ['uv_2d', 'elev_2d']:
+                    metadata.update(meta)
         except Exception:
-            self.fields.solution_2d.assign(present_state)
+            for f in load_fields:
+                self.fields[f].assign(present_state[f])
             raise
         self._simulation_continued = True
-        self.assign_initial_conditions()
-
-        # choose metadata from one file (they should agree)
-        metadata = {}
-        metadata.update(meta_uv)
-        metadata.update(meta_elev)
+        sediment = self.fields.sediment_2d if 'sediment_2d' in load_fields else None
+        self.assign_initial_conditions(sediment=sediment)
 
         # time stepper bookkeeping for export time step
         if i_export is None:
-- 
2.43.0


From dde39f1e4c75cab379536ba356e8bdba6a9ce741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:58 +0000
Subject: [PATCH 30/36] fix: include the volume source in the
 PressureProjectionPicard time integrator

---
 thetis/timeintegrator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/thetis/timeintegrator.py b/thetis/timeintegrator.py
index 8c5b14b..4bd87b0 100644
--- a/thetis/timeintegrator.py
+++ b/thetis/timeintegrator.py
@@ -418,6 +418,14 @@ class PressureProjectionPicard(TimeIntegrator):
                     - theta_const*term.residual(self.uv_star, eta_lagged, uv_star_nl, eta_lagged, self.fields, self.fields, bnd_conditions)
                     - (1-theta_const)*term.residual(uv_old, eta_old, uv_old, eta_old, self.fields_old, self.fields_old, bnd_conditions)
                 )
+        # add source terms of the continuity eqn.: those of the mom. eqn. are included in u^*
+        for key in self.equation.terms:
+            if self.equation.labels[key] == 'source' and key not in self.equation_mom.terms:
+                term = self.equation.terms[key]
+                self.F += -self.dt_const*(
+                    theta_const*term.residual(uv_lagged, eta_lagged, uv_lagged, eta_lagged, self.fields, self.fields, bnd_conditions)
+                    + (1-theta_const)*term.residual(uv_old, eta_old, uv_old, eta_old, self.fields_old, self.fields_old, bnd_conditions)
+                )
 
         self.update_solver()
 
-- 
2.43.0


From 1dcacc6169e6dbf01b9d78f4b577b324aacb2ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:19 +0000
Subject: [PATCH 31/36] fix: interpolate vector fields of the rt-dg and bdm-dg
 families at points

---
 thetis/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index 2c66226..4c45af6 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -1177,7 +1177,7 @@ def vom_interpolator_functions(solver_obj, field_names, locations):
     for field_name in field_names:
         field = solver_obj.fields[field_name]
 
-        if isinstance(field.function_space().ufl_element(), VectorElement):
+        if field.function_space().value_shape != ():
             P0DG = VectorFunctionSpace(vom, "DG", 0)
             P0DG_input_ordering = VectorFunctionSpace(vom.input_ordering, "DG", 0)
         else:
-- 
2.43.0


From 86a8ed8650550a58b5501909525dcb916d01afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:19 +0000
Subject: [PATCH 32/36] fix: integrate AccumulatorCallback over the time that
 has passed

---
 thetis/callback.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index a12f71f..a5b6d4a 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -630,15 +630,17 @@ class AccumulatorCallback(DiagnosticCallback):
         kwargs.setdefault('append_to_log', False)
         super(AccumulatorCallback, self).__init__(solver_obj, **kwargs)
         self.scalar_callback = scalar_callback      # Evaluate functional
-        self.dt = solver_obj.options.timestep
         self.integrant = 0.
         self.old_value = None
+        self.old_time = None
 
     def __call__(self):
         scalar_value = self.scalar_callback()
+        time = self.solver_obj.simulation_time
         if self.old_value is not None:
-            self.integrant += 0.5 * (self.old_value + scalar_value) * self.dt
+            self.integrant += 0.5 * (self.old_value + scalar_value) * (time - self.old_time)
         self.old_value = scalar_value
+        self.old_time = time
 
         return scalar_value
 
-- 
2.43.0


From 06a65f1e029d226d76569b861ba6159e17344c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:19 +0000
Subject: [PATCH 33/36] fix: return copies of the profile coordinates and
 turbine averages

---
 thetis/callback.py | 2 +-
 thetis/turbines.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index a5b6d4a..acf33fb 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -960,7 +960,7 @@ class VerticalProfileCallback(DiagnosticCallback):
         # update time-dependent z array
         self._construct_z_array()
 
-        outvals = [self.xyz[:, 2]]
+        outvals = [self.xyz[:, 2].copy()]
         for fieldname in self.fieldnames:
             try:
                 field = self.solver_obj.fields[fieldname]
diff --git a/thetis/turbines.py b/thetis/turbines.py
index dc96ddd..5e98182 100644
--- a/thetis/turbines.py
+++ b/thetis/turbines.py
@@ -255,7 +255,7 @@ class TurbineFunctionalCallback(DiagnosticCallback):
             self.integrated_power[i] += power * self.dt
             self.average_power[i] = self.integrated_power[i] / self.time_period
             self.average_profit[i] = self.average_power[i] - self.break_even_wattage[i] * self.cost[i]
-        return current_power, self.average_power, self.average_profit
+        return current_power, list(self.average_power), list(self.average_profit)
 
     def __call__(self):
         return self._evaluate_timestep()
-- 
2.43.0


From 805ce4be75387c991d998fe2f04c5a30c608e712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 34/36] fix: update the 3D forcings in the leap-frog coupled
 integrator

---
 thetis/coupled_timeintegrator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thetis/coupled_timeintegrator.py b/thetis/coupled_timeintegrator.py
index de2b988..7416b2f 100644
--- a/thetis/coupled_timeintegrator.py
+++ b/thetis/coupled_timeintegrator.py
@@ -439,6 +439,9 @@ class CoupledLeapFrogAM3(CoupledTimeIntegrator):
         # - Forward Euler step in fixed domain Omega_n
         # -------------------------------------------------
 
+        if update_forcings3d is not None:
+            update_forcings3d(t)
+
         if self.options.use_ale_moving_mesh:
             self.fields.w_mesh_3d.assign(0.0)
 
@@ -499,6 +502,9 @@ class CoupledLeapFrogAM3(CoupledTimeIntegrator):
         # - Forward Euler ALE step from Omega_n to Omega_{n+1}
         # -------------------------------------------------
 
+        if update_forcings3d is not None:
+            update_forcings3d(t + 0.5*self.solver.dt)
+
         with timed_stage('salt_eq'):
             if self.options.solve_salinity:
                 self.timesteppers.salt_expl.eval_rhs()
-- 
2.43.0


From b4205f7909f8cb20b34b96b5e4f780e853c7bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:31 +0000
Subject: [PATCH 35/36] fix: do not store the initial station time series twice
 in minimize

The functional evaluation has already collected the time series of the
initial state; collecting it again after set_initial_state has advanced
the iteration counter appended a second copy, so until the first line
search was accepted the files held one series more than there are
progress records.
---
 thetis/inversion_tools.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/thetis/inversion_tools.py b/thetis/inversion_tools.py
index 79bc60b..c422c16 100644
--- a/thetis/inversion_tools.py
+++ b/thetis/inversion_tools.py
@@ -551,7 +551,6 @@ class InversionManager(FrozenHasTraits):
         J = float(self.reduced_functional(self.control_coeff_list))
         self.set_initial_state(J, self.reduced_functional.derivative(apply_riesz=True), self.control_coeff_list)
         if not self.no_exports:
-            self.sta_manager.collect_time_series(self.i)
             self.sta_manager.dump_time_series()
         try:
             return minimize(
-- 
2.43.0


From 3118f6e380fc0e61053cb071d1c7c4223c4b7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:11 +0000
Subject: [PATCH 36/36] fix: let the non-hydrostatic model run with
 update_free_surface=False

The integrator looked up the free surface time stepper even when the
option had told it not to create one.
---
 thetis/coupled_timeintegrator_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/coupled_timeintegrator_2d.py b/thetis/coupled_timeintegrator_2d.py
index a5f10e0..a0b355b 100644
--- a/thetis/coupled_timeintegrator_2d.py
+++ b/thetis/coupled_timeintegrator_2d.py
@@ -180,7 +180,8 @@ class NonHydrostaticTimeIntegrator2D(CoupledTimeIntegrator2D):
             self.elev_old = Function(self.fields.elev_2d)
         self.serial_advancing = not hasattr(self.timesteppers.swe2d, 'n_stages') \
             or self.options.swe_timestepper_type == 'SSPIMEX'
-        self.multi_stages_fs = hasattr(self.timesteppers.fs2d, 'n_stages') \
+        self.multi_stages_fs = self.nh_options.update_free_surface \
+            and hasattr(self.timesteppers.fs2d, 'n_stages') \
             and self.nh_options.free_surface_timestepper_type != 'BackwardEuler'
         if self.multi_stages_fs:
             msg = 'The multi-stage type of Shallow Water and ' \
-- 
2.43.0

