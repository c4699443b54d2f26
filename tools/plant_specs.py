"""Sources of the planted bugs (see tools/plant.py). Not read by any check."""
S2D = 'thetis/solver2d.py'
S3D = 'thetis/solver.py'
EXP = 'thetis/exporter.py'
CB = 'thetis/callback.py'
TI = 'thetis/timeintegrator.py'
RK = 'thetis/rungekutta.py'

RUN2D = '''
import numpy as np
import thetis as th
th.UnitSquareMesh    # imported
import logging
logging.getLogger('thetis').setLevel(logging.ERROR)


def base(path='base.h5'):
    m = th.RectangleMesh(3, 2, 3e3, 2e3)
    with th.CheckpointFile(path, 'w') as f:
        f.save_mesh(m)
    return th.read_mesh_from_checkpoint(path)


def solver(mesh, out, dt=50., texp=100., tend=400., ts='CrankNicolson', src=None, **kw):
    P1 = th.get_functionspace(mesh, 'CG', 1)
    b = th.Function(P1).assign(20.)
    s = th.solver2d.FlowSolver2d(mesh, b)
    o = s.options
    o.element_family = 'dg-dg'
    o.timestep = dt
    o.simulation_export_time = texp
    o.simulation_end_time = tend
    o.swe_timestepper_type = ts
    if hasattr(o.swe_timestepper_options, 'use_automatic_timestep'):
        o.swe_timestepper_options.use_automatic_timestep = False
    o.output_directory = out
    o.log_output = False
    o.fields_to_export = []
    o.fields_to_export_hdf5 = ['elev_2d', 'uv_2d']
    if src is not None:
        o.volume_source_2d = src
    for k, v in kw.items():
        setattr(o, k, v)
    return s


def start(s):
    x, y = th.SpatialCoordinate(s.mesh2d)
    s.assign_initial_conditions(elev=0.5*th.cos(th.pi*x/3e3))


def maxdiff(a, b):
    return float(np.abs(np.asarray(a) - np.asarray(b)).max())
'''

RUN3D = RUN2D + '''

def solver3d(mesh, out, dt=50., texp=100., tend=200., turb=False, salt=True):
    P1 = th.get_functionspace(mesh, 'CG', 1)
    b = th.Function(P1).assign(20.)
    s = th.solver.FlowSolver(mesh, b, 3)
    o = s.options
    o.timestep = dt
    o.timestep_2d = dt
    o.timestepper_type = 'SSPRK22'
    o.timestepper_options.use_automatic_timestep = False
    o.simulation_export_time = texp
    o.simulation_end_time = tend
    o.solve_salinity = salt
    o.solve_temperature = False
    o.use_bottom_friction = False
    o.use_implicit_vertical_diffusion = turb
    o.log_output = False
    o.fields_to_export = []
    o.fields_to_export_hdf5 = ['elev_2d', 'uv_2d', 'uv_3d'] + (['salt_3d'] if salt else [])
    if turb:
        o.use_turbulence = True
        o.turbulence_model_type = 'gls'
        o.vertical_viscosity = th.Constant(1e-3)
        o.vertical_diffusivity = th.Constant(1e-3)
        o.fields_to_export_hdf5 = o.fields_to_export_hdf5 + ['tke_3d', 'psi_3d']
    o.output_directory = out
    return s


def start3d(s):
    s.initialize()
    x, y, z = th.SpatialCoordinate(s.mesh)
    kw = {'salt': 10 + x/3e3 + 0.1*z} if s.options.solve_salinity else {}
    s.assign_initial_conditions(elev=0.5*th.cos(th.pi*th.SpatialCoordinate(s.mesh2d)[0]/3e3), **kw)
'''

TS = '''
import datetime
import netCDF4
import thetis as th
from thetis import interpolation
init = datetime.datetime(2006, 5, 1, tzinfo=datetime.timezone.utc)


def series(fn, t, v):
    with netCDF4.Dataset(fn, 'w') as d:
        d.createDimension('time', None)
        x = d.createVariable('time', 'f8', ('time',))
        x.units = 'seconds since 2006-05-01 00:00:00'
        x.calendar = 'standard'
        x[:] = t
        d.createVariable('v', 'f8', ('time',))[:] = v
'''

SPECS = [
    dict(id='s01-time-rounded', property='S01',
         edits=[(EXP, '''f.set_attr("/", "time", float(time))''', '''f.set_attr("/", "time", float(round(time)))''')],
         needs='a time step that is not a whole number of seconds, and a run that is continued from an export',
         breaks='the time stamp of HDF5 exports is rounded to whole seconds, so a continued run restarts its clock at a wrong time',
         demo=RUN2D + '''
mesh = base()
s = solver(mesh, 'a', dt=12.5, texp=37.5, tend=37.5)
start(s)
s.iterate()
r = solver(mesh, 'a', dt=12.5, texp=37.5, tend=75.)
r.load_state(1)
print('resumed at', r.simulation_time)
sys.exit(0 if abs(r.simulation_time - 37.5) < 1e-9 else 1)
'''),
    dict(id='s01-stale-old-fields', property='S01',
         edits=[(S2D, '''        self.timestepper.initialize(self.fields.solution_2d)

    @PETSc.Log.EventDecorator("thetis.FlowSolver2d.add_callback")''',
                 '''        if elev is not None or uv is not None or sediment is not None or tracers:
            # nothing to re-initialize if no field was changed
            self.timestepper.initialize(self.fields.solution_2d)

    @PETSc.Log.EventDecorator("thetis.FlowSolver2d.add_callback")''')],
         needs='a run continued with load_state whose forcing is a Function that is non-zero at the restart time, with an integrator that uses the forcing of the old time level',
         breaks='load_state does not re-initialise the time integrator: the first step after a restart uses stale (zero) old forcing fields',
         demo=RUN2D + '''
mesh = base()
P1 = th.get_functionspace(mesh, 'CG', 1)


def run(first, tend, out):
    src = th.Function(P1).assign(1e-3)
    s = solver(mesh, out, tend=tend, src=src)

    def upd(t):
        src.assign(1e-3*(1 + 0.01*t))
    if first:
        start(s)
    else:
        upd(100.)
        s.load_state(1)
    s.iterate(update_forcings=upd)
    return s.fields.elev_2d.dat.data_ro.copy()


run(True, 100., 'a')
got = run(False, 200., 'a')
want = run(True, 200., 'b')
d = maxdiff(got, want)
print('difference to the uninterrupted run', d)
sys.exit(0 if d < 1e-7 else 1)
'''),
    dict(id='s02-dav-not-copied', property='S02',
         edits=[(S3D, '''            self.fields.uv_dav_2d.project(uv_2d)
            if uv_3d is None:''', '''            self.fields.uv_dav_2d.project(uv_2d)
            if self.options.use_ale_moving_mesh and uv_3d is not None:
                ExpandFunctionTo3d(self.fields.uv_dav_2d, self.fields.uv_dav_3d,
                                   elem_height=self.fields.v_elem_size_3d).solve()
                self.fields.uv_dav_3d *= 0.999
            if uv_3d is None:''')],
         needs='a 3D run on a moving mesh continued from an export at which there is a depth-averaged flow',
         breaks='the depth-averaged part of the 3D velocity is slightly wrong after a restart',
         demo=RUN3D + '''
mesh = base()
s = solver3d(mesh, 'a', tend=200.)
start3d(s)
s.iterate()
want = s.fields.uv_3d.dat.data_ro + s.fields.uv_dav_3d.dat.data_ro
r = solver3d(mesh, 'a', tend=400.)
r.load_state(2)
got = r.fields.uv_3d.dat.data_ro + r.fields.uv_dav_3d.dat.data_ro
d = maxdiff(got, want)/np.abs(want).max()
print('total velocity differs by', d)
sys.exit(0 if d < 1e-6 else 1)
'''),
    dict(id='s03-extra-step', property='S03',
         edits=[(S3D, '''        while self.simulation_time <= self.options.simulation_end_time - t_epsilon:
''', '''        while self.simulation_time < self.options.simulation_end_time:
''')],
         needs='a 3D run whose time step is not exactly representable, such that rounding leaves the last step just short of the end time',
         breaks='a 3D run takes one step past its end time',
         demo=RUN3D + '''
mesh = base()
te, n, m = 0.7, 24, 1
te, n, m = next((te, n, m) for te in (0.7, 1.1, 1.3) for n in range(2, 40) for m in range(1, 6) if n*m*(te/n) < m*te)
s = solver3d(mesh, 'a', dt=te/n, texp=te, tend=m*te, salt=False)
start3d(s)
s.timestepper.advance = lambda *a, **k: None
s.export = lambda time=None: None
s.iterate()
print(te, n, m, s.dt, s.iteration, s.simulation_time)
sys.exit(0 if s.iteration == n*m else 1)
'''),
    dict(id='s03-export-number', property='S03',
         edits=[(S2D, '''        if self.export_initial_state:
            offset = 0
        else:
            offset = 1
''', '''        if self.export_initial_state and i_export != i_stored:
            offset = 0
        else:
            offset = 1
''')],
         needs='a 2D run continued from the exports of another output directory, keeping the export number',
         breaks='the exports of a run continued in a new directory carry numbers that are one too high',
         demo=RUN2D + '''
mesh = base()
s = solver(mesh, 'a', tend=200.)
start(s)
s.timestepper.advance = lambda *a, **k: None
s.iterate()
r = solver(mesh, 'b', tend=400.)
r.load_state(1, outputdir='a')
r.timestepper.advance = lambda *a, **k: None
r.iterate()
got = sorted(x for x in os.listdir('b/hdf5') if x.startswith('Elev'))
print(got)
sys.exit(0 if got == [f'Elevation2d_{i:05d}.h5' for i in (1, 2, 3, 4)] else 1)
'''),
    dict(id='s04-forcing-monotone', property='S04',
         edits=[(RK, '''        if self._nontrivial:
            if update_forcings is not None:
                update_forcings(t + self.c[i_stage]*self.dt)

            if i_stage == 0:
                self.stage_sol[0].assign(self.solution)
''', '''        if self._nontrivial:
            if update_forcings is not None and self.c[i_stage] >= numpy.max(self.c[:i_stage + 1]):
                # forcings are already up to date otherwise
                update_forcings(t + self.c[i_stage]*self.dt)

            if i_stage == 0:
                self.stage_sol[0].assign(self.solution)
''')],
         needs='the SSPRK33 integrator with time-dependent forcing',
         breaks='the last stage of SSPRK33 is evaluated with the forcing of the end of the step instead of its middle',
         demo=RUN2D + '''
mesh = base()
P1 = th.get_functionspace(mesh, 'CG', 1)
src = th.Function(P1)
s = solver(mesh, 'a', dt=1., texp=2., tend=2., ts='SSPRK33', src=src, no_exports=True)
s.assign_initial_conditions()


def upd(t):
    src.assign(3*t**2)


s.iterate(update_forcings=upd)
e = s.fields.elev_2d.dat.data_ro
print(e.min(), e.max())
# third order: exact for a quadratic source
sys.exit(0 if abs(e.mean() - 8.) < 1e-6 else 1)
'''),
    dict(id='s04-picard-old', property='S04',
         edits=[(TI, '''        if update_lagged:
            self.solution_old.assign(self.solution)
        self.solver.solve()
        if update_fields:
            self.update_fields_old()


class SteadyState(TimeIntegrator):''', '''        if update_lagged:
            self.solution_old.assign(self.solution)
        self.solver.solve()
        if update_lagged or update_fields:
            self.update_fields_old()


class SteadyState(TimeIntegrator):''')],
         needs='tracer Picard iterations (more than one) with Crank-Nicolson and time-dependent forcing or velocity',
         breaks='later Picard iterations take the new fields for those of the old time level',
         demo=RUN2D + '''
mesh = base()
P1 = th.get_functionspace(mesh, 'CG', 1)
src = th.Function(P1)
s = solver(mesh, 'a', dt=10., texp=20., tend=20., no_exports=True)
s.options.add_tracer_2d('c_2d', 'c', 'C2d', source=src)
s.options.tracer_timestepper_type = 'CrankNicolson'
s.options.use_limiter_for_tracers = False
s.options.tracer_picard_iterations = 2
s.options.tracer_only = True


def upd(t):
    src.assign(2*t)


upd(0.)
s.assign_initial_conditions()
s.iterate(update_forcings=upd)
c = s.fields.c_2d.dat.data_ro
print(c.min(), c.max())
sys.exit(0 if abs(c.mean() - 400.) < 1e-3 else 1)
'''),
    dict(id='s05-append-exports-only', property='S05',
         edits=[(S3D, '''            for m in self.callbacks:
                for k in self.callbacks[m]:
                    self.callbacks[m][k].set_write_mode('append')
''', '''            for k in self.callbacks['export']:
                self.callbacks['export'][k].set_write_mode('append')
''')],
         needs='a 3D run with a diagnostic evaluated every time step that is continued from an export',
         breaks='the time series written before the restart by per-time-step diagnostics is overwritten',
         demo=RUN3D + '''
import h5py


class CB(th.DiagnosticCallback):
    name = 'probe'
    variable_names = ['a']

    def __call__(self):
        return (self.solver_obj.simulation_time,)

    def message_str(self, *args):
        return ''


mesh = base()


def run(tend, first):
    s = solver3d(mesh, 'a', tend=tend, salt=False)
    s.add_callback(CB(s, append_to_log=False), 'timestep')
    if first:
        start3d(s)
    else:
        s.load_state(1)
    s.timestepper.advance = lambda *a, **k: None
    s.iterate()


run(100., True)
run(200., False)
with h5py.File('a/diagnostic_probe.hdf5', 'r') as f:
    t = f['time'][:, 0].tolist()
print(t)
sys.exit(0 if t == [50., 100., 150., 200.] else 1)
'''),
    dict(id='s05-init-flag-early', property='S05',
         edits=[(CB, '''        if self.append_to_hdf5:
            comm = self.solver_obj.comm
            create_directory(self.outputdir, comm=comm)
            fname = ''', '''        self._hdf5_initialized = True
        if self.append_to_hdf5:
            comm = self.solver_obj.comm
            create_directory(self.outputdir, comm=comm)
            fname = '''), (CB, '''                                               include_time=self.include_time)
        self._hdf5_initialized = True
''', '''                                               include_time=self.include_time)
''')],
         needs='an I/O error while the diagnostic file is being created, followed by further evaluations',
         breaks='after a failed file creation every later evaluation of the diagnostic fails and nothing is stored',
         demo='''
from types import SimpleNamespace
import h5py
import thetis as th
from mpi4py import MPI


class CB(th.DiagnosticCallback):
    name = 'probe'
    variable_names = ['a']

    def __call__(self):
        return (self.solver_obj.simulation_time,)

    def message_str(self, *args):
        return ''


s = SimpleNamespace(options=SimpleNamespace(output_directory='out', simulation_initial_date=None), comm=MPI.COMM_WORLD, simulation_time=0.)
cb = CB(s, append_to_log=False)
real = h5py.Group.create_dataset
n = [0]


def flaky(self, *a, **k):
    n[0] += 1
    if n[0] == 2:
        raise OSError(28, 'No space left on device')
    return real(self, *a, **k)


h5py.Group.create_dataset = flaky
for i in range(4):
    s.simulation_time = 10.*i
    try:
        cb.evaluate()
        print(i, 'stored')
    except Exception as e:
        print(i, repr(e))
try:
    with h5py.File('out/diagnostic_probe.hdf5', 'r') as f:
        t = f['time'][:, 0].tolist()
except OSError as e:
    t = repr(e)
print(t)
sys.exit(0 if t == [10., 20., 30.] else 1)
'''),
    dict(id='s06-seek-added', property='S06',
         edits=[(EXP, '''        for k in self.exporters:
            self.exporters[k].set_next_export_ix(next_export_ix)''', '''        for k in self.fields_to_export:
            if k in self.exporters:
                self.exporters[k].set_next_export_ix(next_export_ix)''')],
         needs='a field added to an export manager after its construction, followed by a change of the export number (e.g. a continued run)',
         breaks='fields added with add_export are not renumbered, so their files are overwritten or mislabelled after a restart',
         demo='''
import thetis as th
from thetis.exporter import ExportManager
m = th.UnitSquareMesh(2, 2)
V = th.get_functionspace(m, 'CG', 1)
f, g = th.Function(V, name='f'), th.Function(V, name='g')
meta = {k: {'shortname': k, 'filename': k.upper()} for k in 'fg'}
e = ExportManager('out', ['f'], {'f': f}, meta, export_type='hdf5')
e.add_export('g', g, export_type='hdf5')
e.set_next_export_ix(5)
e.export()
got = sorted(os.listdir('out'))
print(got)
sys.exit(0 if got == ['F_00005.h5', 'G_00005.h5'] else 1)
'''),
    dict(id='s06-number-first', property='S06',
         edits=[(EXP, '''        self.export_as_index(self.next_export_ix, function, time=time)''',
                 '''        iexport = self.next_export_ix
        self.next_export_ix += 1
        self.export_as_index(iexport, function, time=time)''')],
         needs='an HDF5 export that fails (disk error) and is followed by another one',
         breaks='a failed export uses up its number, so the files of different fields get different numbers for the same instant',
         demo='''
import thetis as th
from thetis.exporter import HDF5Exporter
m = th.UnitSquareMesh(2, 2)
V = th.get_functionspace(m, 'CG', 1)
f = th.Function(V, name='f')
e = HDF5Exporter(V, 'out', 'F')
e.export(f)
real = th.CheckpointFile.save_function


def fail(self, *a, **k):
    raise OSError(5, 'Input/output error')


th.CheckpointFile.save_function = fail
try:
    e.export(f)
except OSError as x:
    print(x)
th.CheckpointFile.save_function = real
e.export(f)
got = sorted(x for x in os.listdir('out') if x.endswith('.h5'))
print(got)
sys.exit(0 if got == ['F_00000.h5', 'F_00001.h5'] else 1)
'''),
    dict(id='s08-buffer-renewed', property='S08',
         edits=[('thetis/log.py', """    if thetis_log_config.mem_buffer is None:
        thetis_log_config.mem_buffer = io.StringIO()
""", """    if thetis_log_config.filename is None:
        thetis_log_config.mem_buffer = io.StringIO()
""")],
         needs='set_thetis_loggers called again by the application (e.g. with another communicator) after messages were logged and before a log file is assigned',
         breaks='messages logged before the loggers are set up again never reach the log file',
         demo="""
import thetis as th
from thetis.log import set_thetis_loggers, set_log_directory, print_output
print_output('first message')
set_thetis_loggers()
print_output('second message')
set_log_directory('out')
text = open('out/log').read()
print(text)
sys.exit(0 if text.count('first message') == 1 and text.count('second message') == 1 else 1)
"""),
    dict(id='s08-same-file-append', property='S08',
         edits=[('thetis/log.py', """    if thetis_log_config.filename == logfile:
        # no change
""", """    if thetis_log_config.filename == logfile and mode == 'w':
        # no change
""")],
         needs='a second solver, continued from an export, that logs to the file which is in use already',
         breaks='the messages of the start of the session are written to the log again',
         demo="""
import thetis as th
from thetis.log import set_log_directory, print_output
print_output('first message')
set_log_directory('out')
print_output('second message')
set_log_directory('out', mode='a')
print_output('third message')
text = open('out/log').read()
print(text)
sys.exit(0 if text.split('\\n').count('first message') == 1 and text.count('third message') == 1 else 1)
"""),
    dict(id='s09-cache-partial', property='S09',
         edits=[('thetis/interpolation.py', """        if key not in self.cache:
            self.cache[key] = self.reader(key[0], key[1])
        return self.cache[key]
""", """        if key not in self.cache:
            data = self.cache.setdefault(key, [])
            data.extend(self.reader(key[0], key[1]))
        return self.cache[key]
""")],
         needs='a read error while a time stamp is loaded, and another request for the same time stamp afterwards',
         breaks='after a failed read the time series has no values at that time stamp',
         demo=TS + """
series('data_0.nc', [0., 3600., 7200.], [1., 2., 4.])
ip = interpolation.NetCDFTimeSeriesInterpolator('data_*.nc', ['v'], init)
real = netCDF4.Dataset
ip(10.)


def broken(*a, **k):
    raise OSError(5, 'Input/output error')


netCDF4.Dataset = broken
try:
    ip(5400.)
except OSError:
    pass
netCDF4.Dataset = real
got = ip(5400.)
print(got)
sys.exit(0 if len(got) == 1 and abs(float(got[0]) - 3.) < 1e-9 else 1)
"""),
    dict(id='s09-sorted-by-name', property='S09',
         edits=[('thetis/interpolation.py', """            ncfiles.append(nc)
            dates.append(nc.get_start_time())
        sort_ix = numpy.argsort(dates)
""", """            ncfiles.append(nc)
            dates.append(nc.get_start_time())
        sort_ix = numpy.argsort(all_files)
""")],
         needs='data files whose names do not sort in time order',
         breaks='data of some times are not found or taken from a wrong interval',
         demo=TS + """
series('data_10.nc', [7200., 10800.], [4., 8.])
series('data_9.nc', [0., 3600.], [1., 2.])
ip = interpolation.NetCDFTimeSeriesInterpolator('data_*.nc', ['v'], init)
try:
    got = [float(ip(t)[0]) for t in (1800., 5400., 9000.)]
except Exception as e:
    got = repr(e)
print(got)
sys.exit(0 if got == [1.5, 3., 6.] else 1)
"""),
]
