"""
Whole-program simulation of model runs: a solver lives, is killed at a seeded
point (inside a step, inside a forcing update, in the middle of a file operation,
between time steps of an abandoned iterator), and is restarted by a new life that
only has what is on the simulated disk.
"""
import datetime
import os
import shutil
import tempfile

import numpy as np

from . import seams
from .core import SimAbort, SimCrash, Violation

T0 = datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc)


def reset_logging():
    """What a process restart does to the logging module state."""
    import logging
    import io
    import sys
    tlog = sys.modules['thetis.log']      # thetis.log itself is a function
    for n in ('thetis', 'thetis_output'):
        lg = logging.getLogger(n)
        for h in list(lg.handlers):
            if isinstance(h, logging.FileHandler):
                h.close()
                lg.removeHandler(h)
    cfg = getattr(tlog, 'thetis_log_config', None)
    if cfg is not None:
        cfg.filename = None
        cfg.mem_buffer = io.StringIO()


class World:
    """Per worker process: the base mesh on disk and its loaded copy."""
    _instances = {}

    def __init__(self, nx, ny, lx, ly, periodic=False):
        import thetis as th
        self.size = (nx, ny, lx, ly)
        self.dir = tempfile.mkdtemp(prefix='vsim-base-')
        self.file = os.path.join(self.dir, 'base.h5')
        m = (th.PeriodicRectangleMesh if periodic else th.RectangleMesh)(nx, ny, lx, ly)
        with th.CheckpointFile(self.file, 'w') as f:
            f.save_mesh(m)
        self.mesh = th.read_mesh_from_checkpoint(self.file)

    @classmethod
    def get(cls, nx=3, ny=2, lx=3e3, ly=2e3, periodic=False):
        key = (nx, ny, lx, ly, periodic)
        if key not in cls._instances:
            cls._instances[key] = cls(*key)
        return cls._instances[key]


def field_arrays(solver, names):
    return {k: np.array(solver.fields[k].dat.data_ro, copy=True) for k in names}


def reldiff(a, b):
    if a.shape != b.shape:
        return np.inf
    s = max(float(np.abs(a).max()), float(np.abs(b).max()), 1e-12)
    d = np.abs(a - b)
    return float(d.max())/s if np.all(np.isfinite(d)) else np.inf


def node_order(V):
    """A node order that does not depend on the mesh numbering (DG/CG point values)."""
    import thetis as th
    mesh = V.mesh()
    el = V.ufl_element()
    if V.value_size > 1:
        el = el.sub_elements[0]
    x = th.Function(th.VectorFunctionSpace(mesh, el)).interpolate(mesh.coordinates)
    xy = np.array(x.dat.data_ro)
    cen = np.zeros_like(xy)
    cnt = np.zeros(len(xy))
    for c in V.cell_node_map().values:
        m = xy[c].mean(axis=0)
        cen[c] += m
        cnt[c] += 1
    cen /= cnt[:, None]
    keys = [np.round(v[:, i], 3) for v in (xy, cen) for i in range(v.shape[1])]
    return np.lexsort(keys)


def canonical_state(solver, state):
    return {k: v[node_order(solver.fields[k].function_space())] for k, v in state.items()}


def recorder_class():
    import thetis as th

    class Recorder(th.DiagnosticCallback):
        """User callback that only looks."""
        name = 'zz_recorder'
        variable_names = ['n']

        def __init__(self, solver_obj, fn, **kw):
            super().__init__(solver_obj, export_to_hdf5=False, append_to_log=False, **kw)
            self.fn = fn

        def __call__(self):
            self.fn()
            return (0.0,)

        def message_str(self, *args):
            return 'recorder'
    return Recorder


_rec_cls = None


def add_recorder(solver, fn, mode):
    global _rec_cls
    if _rec_cls is None:
        _rec_cls = recorder_class()
    r = _rec_cls(solver, fn)
    r.name = f'zz_recorder_{mode}'
    solver.add_callback(r, mode)
    return r


class Trace:
    def __init__(self):
        self.start = None       # (time, iteration, i_export, state)
        self.steps = []         # (time, iteration, i_export, state) after each step
        self.exports = []       # (i_export, time) when an export begins
        self.export_states = {}  # i_export -> state when the export began (cfg keep_export_states)
        self.acked = []         # i_export when an export has returned
        self.forcing = []       # times update_forcings was called with
        self.yields = []
        self.end = None         # (time, iteration, i_export)
        self.outcome = None     # 'end' | 'crash' | 'error' | 'abandoned'
        self.error = None


class Model:
    """Builds a solver for a config and runs one life of it."""
    state_fields = ()
    keep_export_states = False

    def __init__(self, world, ctx, cfg, disk=None):
        self.world = world
        self.ctx = ctx
        self.cfg = cfg
        self.disk = disk

    def build(self, outdir, mesh2d):
        raise NotImplementedError

    def initial(self, s):
        raise NotImplementedError

    def force(self, t):
        pass

    def dates(self, o):
        c = self.cfg
        mode = c.get('dates', 'none')
        tz = datetime.timezone(datetime.timedelta(minutes=c.get('tz_min', 0)))
        t0 = T0.astimezone(tz)
        if mode != 'none':
            o.simulation_initial_date = t0
        if mode == 'both':
            o.simulation_end_date = t0 + datetime.timedelta(seconds=c['tend'])
        else:
            o.simulation_end_time = c['tend']

    def life(self, outdir, mesh2d=None, resume=None, kill=None, keep_states=True, hooks=None):
        """One life. resume: None or dict(i, outputdir, [t_force]); returns Trace."""
        kill = kill or {}
        tr = Trace()
        seen = {'force': 0, 'yield': 0, 'ack': 0}
        reset_logging()

        def die(why):
            self.ctx.fault('kill_' + why)
            if self.disk is not None:
                self.disk.crash(why)
            raise SimCrash(why)

        def upd(t):
            tr.forcing.append(float(t))
            seen['force'] += 1
            if kill.get('kind') == 'force' and seen['force'] == kill['at']:
                die('in_forcing')
            self.force(t)
            if len(tr.forcing) > 4000:
                raise SimAbort('too many steps')

        s = None
        try:
            s = self.build(outdir, mesh2d or self.world.mesh)
            self.solver = s
            if resume is None:
                self.force(0.0)
                self.initial(s)
            else:
                self.force(resume.get('t_force', 0.0))
                kw = dict(resume.get('kw', {}))
                if resume.get('outputdir') is not None:
                    kw['outputdir'] = resume['outputdir']
                s.load_state(resume['i'], **kw)

            def snap():
                return field_arrays(s, self.state_fields) if keep_states else None

            def ack():
                tr.acked.append(int(s.i_export))
                self.ctx.ev('ack', int(s.i_export), float(s.simulation_time))
                seen['ack'] += 1
                if hooks and 'ack' in hooks:
                    hooks['ack'](s, tr)
                if kill.get('kind') == 'ack' and seen['ack'] == kill['at']:
                    die('after_export')
            tr.start = (s.simulation_time, s.iteration, s.i_export, self.full_state(s))
            add_recorder(s, lambda: tr.steps.append((s.simulation_time, s.iteration, s.i_export, snap())), 'timestep')

            def on_export():
                tr.exports.append((int(s.i_export), s.simulation_time))
                if self.keep_export_states:
                    tr.export_states[int(s.i_export)] = self.full_state(s)
            add_recorder(s, on_export, 'export')
            if hooks and 'setup' in hooks:
                hooks['setup'](s, tr)
            if self.disk is not None and kill.get('kind') == 'disk':
                self.disk.arm(kill['plan'])
            if kill.get('kind') == 'yield' or self.cfg.get('generator'):
                it = s.create_iterator(update_forcings=upd, export_func=ack)
                for t in it:
                    tr.yields.append(float(t))
                    seen['yield'] += 1
                    if kill.get('kind') == 'yield' and seen['yield'] == kill['at']:
                        if self.disk is not None and kill.get('hard', True):
                            die('between_steps')
                        it.close()
                        tr.outcome = 'abandoned'
                        self.ctx.fault('iterator_abandoned')
                        break
                else:
                    tr.outcome = 'end'
            else:
                self.iterate(s, upd, ack)
                tr.outcome = 'end'
            tr.end = (s.simulation_time, s.iteration, s.i_export)
        except SimCrash:
            tr.outcome = 'crash'
        except SimAbort:
            raise Violation('runaway', f'the model did not reach its end time within 4000 forcing updates: {self.cfg}')
        except Violation:
            raise
        except Exception as e:
            tr.outcome = 'error'
            tr.error = e
        finally:
            if self.disk is not None:
                self.disk.disarm()
        if s is not None and tr.steps:
            self.ctx.sim_time += float(tr.steps[-1][0]) - float(tr.start[0])
        self.ctx.count('steps', len(tr.steps))
        self.ctx.count('exports', len(tr.acked))
        self.ctx.count('lives')
        self.ctx.ev('life', tr.outcome, [round(float(x[0]), 6) for x in tr.steps], tr.acked,
                    type(tr.error).__name__ if tr.error else None)
        return tr

    def iterate(self, s, upd, ack):
        s.iterate(update_forcings=upd, export_func=ack)

    def full_state(self, s):
        return field_arrays(s, self.state_fields)


class Model2D(Model):
    state_fields = ('elev_2d', 'uv_2d')
    export_names = {'elev_2d': 'Elevation2d', 'uv_2d': 'Velocity2d'}

    def build(self, outdir, mesh2d):
        import thetis as th
        c = self.cfg
        P1 = th.get_functionspace(mesh2d, 'CG', 1)
        b = th.Function(P1, name='bathymetry')
        x, y = th.SpatialCoordinate(mesh2d)
        b.interpolate(20.0 + 4.0*x/3e3 - 2.0*y/2e3)
        s = th.solver2d.FlowSolver2d(mesh2d, b, keep_log=c.get('keep_log', False))
        o = s.options
        o.element_family = c.get('family', 'dg-dg')
        o.timestep = c['dt']
        o.simulation_export_time = c['texp']
        self.dates(o)
        o.swe_timestepper_type = c['ts']
        if hasattr(o.swe_timestepper_options, 'use_automatic_timestep'):
            o.swe_timestepper_options.use_automatic_timestep = False
        o.output_directory = outdir
        o.no_exports = c.get('no_exports', False)
        o.fields_to_export = list(c.get('vtk', []))
        o.fields_to_export_hdf5 = list(c.get('hdf5', ['elev_2d', 'uv_2d']))
        for k, v in c.get('options', {}).items():
            setattr(o, k, v)
        self.src = None
        if c.get('force') == 'vs':
            self.src = th.Function(P1, name='volume source')
            self.shape = th.Function(P1).interpolate(th.sin(th.pi*x/3e3))
            o.volume_source_2d = self.src
        for lab in c.get('tracers', []):
            o.add_tracer_2d(lab, lab, lab.capitalize(), unit='-')
        self.extra(s, c.get('extra', 'none'))
        return s

    def extra(self, s, extra):
        """What evolves besides the hydrodynamics."""
        import thetis as th
        o = s.options
        if extra == 'none':
            return
        if extra.startswith('tracer'):
            P1 = th.get_functionspace(s.mesh2d, 'CG', 1)
            self.tsrc = th.Function(P1, name='tracer source')
            o.use_limiter_for_tracers = extra.endswith('lim')
            o.tracer_timestepper_type = self.cfg.get('tracer_ts', self.cfg['ts'])
            if hasattr(o.tracer_timestepper_options, 'use_automatic_timestep'):
                o.tracer_timestepper_options.use_automatic_timestep = False
            kw = dict(source=self.tsrc, use_conservative_form='cons' in extra)
            if 'diff' in extra:
                kw['diffusivity'] = th.Constant(5.0)
            if 'mixed' in extra:
                o.add_tracer_system_2d(['ma_2d', 'mb_2d'], ['ma', 'mb'], ['TracerMa', 'TracerMb'])
                self.extra_fields = {'ma_2d': 'TracerMa', 'mb_2d': 'TracerMb'}
            else:
                o.add_tracer_2d('ta_2d', 'ta', 'TracerTa', **kw)
                self.extra_fields = {'ta_2d': 'TracerTa'}
                if 'two' in extra:
                    o.add_tracer_2d('tb_2d', 'tb', 'TracerTb', source=self.tsrc)
                    self.extra_fields['tb_2d'] = 'TracerTb'
        elif extra.startswith('sed'):
            so = o.sediment_model_options
            so.solve_suspended_sediment = 'susp' in extra
            so.use_bedload = 'bed' in extra
            so.solve_exner = 'ex' in extra
            so.use_sediment_conservative_form = 'cons' in extra
            so.average_sediment_size = th.Constant(1e-4)
            so.bed_reference_height = th.Constant(3e-4)
            so.morphological_acceleration_factor = th.Constant(20.0)
            so.morphological_viscosity = th.Constant(1e-6)
            so.sediment_timestepper_type = 'CrankNicolson'
            so.exner_timestepper_type = 'CrankNicolson'
            o.nikuradse_bed_roughness = th.Constant(3e-4)
            o.use_limiter_for_tracers = False
            self.extra_fields = {}
            if 'susp' in extra:
                self.extra_fields['sediment_2d'] = 'Sediment2d'
            if 'ex' in extra:
                self.extra_fields['bathymetry_2d'] = 'bathymetry2d'
        elif extra.startswith('nh'):
            nh = o.nh_model_options
            nh.solve_nonhydrostatic_pressure = True
            nh.q_degree = 2
            nh.update_free_surface = 'nofs' not in extra
            nh.free_surface_timestepper_type = self.cfg['ts'] if self.cfg['ts'] == 'SSPRK33' else 'CrankNicolson'
            if hasattr(nh.free_surface_timestepper_options, 'use_automatic_timestep'):
                nh.free_surface_timestepper_options.use_automatic_timestep = False
            self.extra_fields = {'q_2d': 'NHPressure2d', 'w_2d': 'VertVelo2d'}
        self.state_fields = tuple(Model2D.state_fields) + tuple(self.extra_fields)
        self.export_names = dict(Model2D.export_names, **self.extra_fields)
        o.fields_to_export_hdf5 = list(o.fields_to_export_hdf5) + list(self.extra_fields)

    tsrc = None

    def force(self, t):
        if self.tsrc is not None:
            self.tsrc.assign(1e-4*np.sin(0.009*float(t)) + 3e-5*np.cos(0.0008*float(t)**1.1))
        if self.src is not None:
            # piecewise smooth in time, different at every instant
            a = 1e-3*np.cos(0.011*float(t)) + 4e-4*np.sin(0.0007*float(t)**1.1)
            self.src.assign(a*self.shape)

    def initial(self, s):
        import thetis as th
        x, y = th.SpatialCoordinate(s.mesh2d)
        kw = {}
        for n, lab in enumerate(self.cfg.get('tracers', [])):
            kw[lab] = 1.0 + 0.5*th.cos(th.pi*(x/3e3 + n*y/2e3))
        if self.tsrc is not None:
            for n, lab in enumerate(self.extra_fields):
                kw[lab] = 2.0 + th.cos(th.pi*((n + 1)*x/3e3 + y/2e3))
        if self.cfg.get('extra', 'none').startswith('sed'):
            # the sediment model needs moving water
            kw['uv'] = th.as_vector((th.Constant(0.7), th.Constant(0.2)))
        s.assign_initial_conditions(elev=0.5*th.cos(th.pi*x/3e3) + 0.2*th.cos(2*th.pi*y/2e3), **kw)


def load_export(world_mesh, path, name):
    """Read an exported field back without thetis."""
    from firedrake import CheckpointFile
    with CheckpointFile(path, 'r') as f:
        g = f.load_function(world_mesh, name)
        try:
            t = f.get_attr('/', 'time')
        except Exception:
            t = None
    return np.array(g.dat.data_ro, copy=True), t


def new_disk(ctx, sub='disk'):
    root = os.path.join(ctx.scratch, sub)
    os.makedirs(root)
    d = seams.Disk(ctx, root)
    seams.use(d)
    return d


def rm(path):
    shutil.rmtree(path, ignore_errors=True)


class Model3D(Model):
    state_fields = ('elev_2d', 'uv_2d', 'uv_3d', 'salt_3d')
    export_names = {'elev_2d': 'Elevation2d', 'uv_2d': 'Velocity2d', 'uv_3d': 'Velocity3d', 'salt_3d': 'Salinity3d',
                    'temp_3d': 'Temperature3d', 'tke_3d': 'TurbKEnergy3d', 'psi_3d': 'TurbPsi3d'}

    def __init__(self, world, ctx, cfg, disk=None):
        super().__init__(world, ctx, cfg, disk)
        f = ['elev_2d', 'uv_2d', 'uv_3d']
        if cfg.get('salt', True):
            f.append('salt_3d')
        if cfg.get('temp'):
            f.append('temp_3d')
        if cfg.get('turb') == 'gls':
            f += ['tke_3d', 'psi_3d']
        self.state_fields = tuple(f)

    def build(self, outdir, mesh2d):
        import thetis as th
        c = self.cfg
        P1 = th.get_functionspace(mesh2d, 'CG', 1)
        b = th.Function(P1, name='bathymetry')
        x, y = th.SpatialCoordinate(mesh2d)
        b.interpolate(20.0 + 4.0*x/3e3 - 2.0*y/2e3)
        s = th.solver.FlowSolver(mesh2d, b, 3, keep_log=c.get('keep_log', False))
        o = s.options
        o.timestep = c['dt']
        o.timestep_2d = c.get('dt2d', c['dt'])
        o.timestepper_type = c.get('ts3d', 'SSPRK22')
        o.timestepper_options.use_automatic_timestep = False
        o.simulation_export_time = c['texp']
        self.dates(o)
        o.solve_salinity = c.get('salt', True)
        o.solve_temperature = c.get('temp', False)
        o.use_ale_moving_mesh = c.get('ale', True)
        o.use_bottom_friction = False
        o.use_implicit_vertical_diffusion = False
        if c.get('turb'):
            o.use_implicit_vertical_diffusion = True
            o.use_turbulence = True
            o.turbulence_model_type = c['turb']
            o.vertical_viscosity = th.Constant(1e-3)
            o.vertical_diffusivity = th.Constant(1e-3)
        o.output_directory = outdir
        o.no_exports = c.get('no_exports', False)
        o.fields_to_export = list(c.get('vtk', []))
        o.fields_to_export_hdf5 = list(c.get('hdf5', self.state_fields))
        for k, v in c.get('options', {}).items():
            setattr(o, k, v)
        self.src = None
        return s

    def initial(self, s):
        import thetis as th
        s.initialize()
        x, y = th.SpatialCoordinate(s.mesh2d)
        xyz = th.SpatialCoordinate(s.mesh)
        kw = {}
        if self.cfg.get('salt', True):
            kw['salt'] = 10 + xyz[0]/3e3 + 0.1*xyz[2]
        if self.cfg.get('temp'):
            kw['temp'] = 8 + xyz[1]/2e3 - 0.05*xyz[2]
        s.assign_initial_conditions(elev=0.5*th.cos(th.pi*x/3e3) + 0.2*th.cos(2*th.pi*y/2e3), **kw)

    def full_state(self, s):
        """Total velocity: uv_3d holds the deviation from the depth average during a run."""
        st = field_arrays(s, self.state_fields)
        st['uv_3d'] = st['uv_3d'] + np.array(s.fields.uv_dav_3d.dat.data_ro)
        return st
