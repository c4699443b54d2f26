"""
S14  An inversion keeps an exact record: whatever sequence of evaluations, rejected trial points, gradients, accepted
     iterates, failed forward runs and failed writes the optimiser meets, the cost is that of a plain forward run and
     the progress record has one entry per accepted iterate that belongs together.
"""
import os

import numpy as np

from .. import life, seams
from ..core import Violation

TOL = 2e-6
TOL_REG = 1e-3   # the derivatives are recovered with iterative solvers
CTRL = ['elev', 'elev', 'manning', 'bath', 'mconst', 'real', 'masked', 'two']


def gen(rng, i, tier):
    run, (rng, e) = rng, rng.epoch(6)
    cfg = {'ts': ['CrankNicolson', 'CrankNicolson', 'DIRK22', 'BackwardEuler'][(e//3) % 4], 'ctrl': CTRL[e % 8], 'var': ['elev', 'elev', 'uv'][e % 3] if e % 8 != 6 else 'elev',
           'reg': rng.choice(['Hessian', 'Gradient', None]), 'multi': rng.random() < 0.15}
    rng = run
    n = rng.randint(2, 3)
    cfg.update(n=n, dt=rng.choice([25.0, 50.0]), mode=rng.choice(['timestep', 'timestep', 'export']), texp=rng.choice([1, 2]),
               weight=rng.random() < 0.4, window=rng.random() < 0.4, scaling=rng.choice([1.0, 0.25, 30.0]), stations=rng.randint(2, 4),
               pos=rng.randint(0, 10**6), from_file=cfg['var'] == 'elev' and rng.random() < 0.35)
    ops = []
    if rng.random() < 0.35:
        ops.append({'op': 'minimize', 'method': rng.choice(['L-BFGS-B', 'L-BFGS-B', 'BFGS']), 'maxiter': rng.randint(0, 2)})
    else:
        ops.append({'op': 'start'})
        for _ in range(rng.randint(1, 4)):
            for _ in range(rng.choice([0, 0, 1, 2])):
                ops.append({'op': rng.choice(['trial', 'trial', 'gradient', 'fail']), 'x': rng.uniform(-0.3, 0.3)})
            op = {'op': 'accept', 'x': rng.uniform(-0.3, 0.3), 'again': rng.random() < 0.2}
            ops.append(op)
    return {'cfg': cfg, 'ops': ops, 'checks': rng.random() < 0.3}


def valid(sc):
    return bool(sc['ops']) and sc['ops'][0]['op'] in ('minimize', 'start')


def shrink(sc):
    import copy
    for key, val in (('multi', False), ('weight', False), ('window', False), ('from_file', False), ('reg', None), ('texp', 1), ('mode', 'timestep'), ('ctrl', 'elev'), ('n', 2), ('stations', 2)):
        if sc['cfg'][key] != val:
            c = copy.deepcopy(sc)
            c['cfg'][key] = val
            yield c
    if sc['checks']:
        c = copy.deepcopy(sc)
        c['checks'] = False
        yield c


class Inverse:
    """The user's program: forward model, stations and controls."""
    def __init__(self, cfg, ctx, root):
        self.cfg = cfg
        self.ctx = ctx
        self.root = root
        rs = np.random.RandomState(cfg['pos'])
        k = cfg['stations']
        self.x = rs.uniform(200, 2800, k)
        self.y = rs.uniform(200, 1800, k)
        self.names = [f'st{"DBCA"[j]}' for j in range(k)]
        T = cfg['n']*cfg['dt']
        self.times = [np.linspace(-10 - j, T + 20 + 3*j, 6 + j) for j in range(k)]
        self.data = [0.3 + 0.2*np.sin(t/40.0 + j) for j, t in enumerate(self.times)]
        self.data2 = [0.05*np.cos(t/60.0 - j) for j, t in enumerate(self.times)]
        self.start = [0.0 if j % 2 else T/2 - 1 for j in range(k)] if cfg['window'] else None
        self.end = [T - 1 if j % 3 == 1 else 10*T for j in range(k)] if cfg['window'] else None

    # -- the forward model with given controls
    def setup(self, values, sub):
        import thetis as th
        c = self.cfg
        W = life.World.get()
        mesh = W.mesh
        P1 = th.get_functionspace(mesh, 'CG', 1)
        b = th.Function(P1, name='bathymetry')
        x, y = th.SpatialCoordinate(mesh)
        b.interpolate(20.0 + 4.0*x/3e3 - 2.0*y/2e3)
        man = th.Function(P1, name='manning')
        man.assign(0.02)
        e0 = th.Function(P1, name='elev_init')
        e0.interpolate(0.3*th.cos(th.pi*x/3e3) + 0.1*y/2e3)
        controls, masks = [], None
        k = c['ctrl']
        if k in ('mconst', 'real'):
            m = th.domain_constant(0.03, mesh, name='m')
            controls = [m]
        elif k == 'masked':
            controls = [th.domain_constant(0.03, mesh, name='m0'), th.domain_constant(0.02, mesh, name='m1')]
            masks = [th.Function(P1).interpolate(x/3e3), th.Function(P1).interpolate(1 - x/3e3)]
        elif k == 'two':
            controls = [e0, man]
        else:
            controls = [{'elev': e0, 'manning': man, 'bath': b}[k]]
        if values is not None:
            for f, v in zip(controls, values):
                f.dat.data[:] = v
        s = th.solver2d.FlowSolver2d(mesh, b)
        o = s.options
        o.timestep = c['dt']
        o.simulation_export_time = c['texp']*c['dt']
        o.simulation_end_time = c['n']*c['dt']
        o.no_exports = True
        o.output_directory = os.path.join(self.root, sub)
        o.swe_timestepper_type = c['ts']
        o.swe_timestepper_options.solver_parameters = {'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij', 'snes_rtol': 1e-11, 'snes_atol': 1e-9}
        o.norm_smoother = th.Constant(1e-2)
        o.manning_drag_coefficient = man
        if k in ('mconst', 'real'):
            man.project(controls[0])
        elif k == 'masked':
            man.assign(0)
            for m_, mask_ in zip(controls, masks):
                man += m_*mask_
        s.assign_initial_conditions(elev=e0, uv=th.Constant((1e-2, 0.0)))
        return s, controls, masks

    def at_stations(self, s, var):
        import thetis as th
        f = s.fields.elev_2d if var == 'elev' else s.fields.uv_2d
        P1 = th.get_functionspace(s.mesh2d, 'CG', 1, vector=var != 'elev')
        g = th.Function(P1).project(f)
        return np.array([g.at([a, b], tolerance=1e-8) for a, b in zip(self.x, self.y)])

    def plain(self, values, variables):
        """A forward run with given control values: (misfit, regularisation, {variable: series}, times)."""
        from firedrake.adjoint import stop_annotating
        with stop_annotating():
            s, controls, _ = self.setup(values, 'plain')
            t, series = [], {v: [] for v in variables}

            def look():
                t.append(float(s.simulation_time))
                for v in variables:
                    series[v].append(self.at_stations(s, v))
            life.add_recorder(s, look, self.cfg['mode'])
            s.iterate()
            J = 0.0
            for v in variables:
                for tt, val in zip(t, series[v]):
                    J += self.misfit(v, tt, val)
            reg = self.regularisation(controls)
        return J, reg, {v: np.array(a) for v, a in series.items()}, t

    def weights(self, v):
        if not self.cfg['weight']:
            return np.ones(len(self.x))
        if v == 'elev':
            return np.array([1/np.var(d) for d in self.data])
        return np.array([1/np.var(np.sqrt(a**2 + b**2)) for a, b in zip(self.data, self.data2)])

    def misfit(self, v, t, val):
        J = 0.0
        w = self.weights(v)
        for j in range(len(self.x)):
            if self.start is not None and not self.start[j] <= t <= self.end[j]:
                continue
            if v == 'elev':
                d = (val[j] - np.interp(t, self.times[j], self.data[j]))**2
            else:
                d = (val[j][0] - np.interp(t, self.times[j], self.data[j]))**2 + (val[j][1] - np.interp(t, self.times[j], self.data2[j]))**2
            J += self.cfg['scaling']*w[j]*d
        return J

    def penalties(self):
        import thetis as th
        if self.cfg['ctrl'] == 'real':
            return [th.Constant(0.5)] if self.cfg['reg'] else []
        return [th.Constant(0.5)]*(2 if self.cfg['ctrl'] == 'two' else 1) if self.cfg['reg'] and self.cfg['ctrl'] not in ('mconst', 'masked') else []

    def regularisation(self, controls):
        """The documented penalty terms: means of squared recovered derivatives over the mesh, or the departure from the prior."""
        import thetis as th
        if not self.penalties():
            return 0.0
        if self.cfg['ctrl'] == 'real':
            f, f0 = float(controls[0].dat.data_ro[0]), 0.03
            return 0.5*(f - f0)**2/max(abs(f0), 1e-3)
        J = 0.0
        lu = {'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij'}
        for f in controls:
            mesh = f.function_space().mesh()
            h = th.CellSize(mesh)
            g = th.Function(th.get_functionspace(mesh, 'CG', 1, vector=True)).project(th.grad(f), solver_parameters=lu)
            if self.cfg['reg'] == 'Gradient':
                q = th.inner(g, g)*h**2
            else:
                H = th.Function(th.get_functionspace(mesh, 'CG', 1, tensor=True)).project(th.grad(g), solver_parameters=lu)
                q = th.inner(H, H)*h**4
            J += 0.5*float(th.assemble(q*th.dx))/float(th.assemble(th.Constant(1.0)*th.dx(domain=mesh)))
        return J

    def manager(self, v, s, outdir):
        import thetis as th
        from thetis import inversion_tools as it
        sm = it.StationObservationManager(s.mesh2d, output_directory=outdir)
        sm.cost_function_scaling = th.domain_constant(self.cfg['scaling'], s.mesh2d)
        if self.cfg['from_file'] and v == 'elev':
            import h5py
            d = os.path.join(self.root, 'obs')
            os.makedirs(d, exist_ok=True)
            for j, nm in enumerate(self.names):
                with h5py.File(os.path.join(d, f'diagnostic_timeseries_{nm}_elev.hdf5'), 'w') as f:
                    f['time'] = self.times[j].reshape(-1, 1)
                    f['elev'] = self.data[j].reshape(-1, 1)
                    f.attrs['x'], f.attrs['y'] = self.x[j], self.y[j]
            sm.load_scalar_observation_data(d, self.names, 'elev', start_times=self.start, end_times=self.end)
        else:
            data = list(self.data) if v == 'elev' else (list(self.data), list(self.data2))
            sm.register_observation_data(self.names, v, self.times, self.x, self.y, data=data, start_times=self.start, end_times=self.end)
            sm.construct_evaluator()
        sm.set_model_field(s.fields.elev_2d if v == 'elev' else s.fields.uv_2d)
        return sm


def run(sc, ctx):
    from firedrake.adjoint import Tape, continue_annotation, pause_annotation, set_working_tape
    seams.use(None)
    life.reset_logging()
    set_working_tape(Tape())
    continue_annotation()
    try:
        simulate(sc, ctx)
    finally:
        pause_annotation()
        set_working_tape(Tape())


def same(a, b, scale=None, tol=TOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol*max(1e-6, float(np.abs(b).max()) if b.size else 0.0, scale or 0.0)))


def simulate(sc, ctx):
    from thetis import inversion_tools as it
    cfg = sc['cfg']
    inv = Inverse(cfg, ctx, ctx.scratch)
    outdir = os.path.join(ctx.scratch, 'inversion')
    s, controls, masks = inv.setup(None, 'fwd')
    vs = ['elev', 'uv'] if cfg['multi'] else [cfg['var']]
    ms = {v: inv.manager(v, s, outdir) for v in vs}
    sm = it.MultiStationObservationManager(ms) if cfg['multi'] else ms[vs[0]]
    real = cfg['ctrl'] == 'real'
    im = it.InversionManager(sm, output_dir=outdir, real=real, penalty_parameters=inv.penalties(), test_consistency=sc['checks'], test_gradient=False)
    if masks is not None:
        im.add_control(controls, mappings=masks)
    else:
        for c in controls:
            im.add_control(c)
    cost = im.get_cost_function(s, weight_by_variance=cfg['weight'], regularisation_manager=cfg['reg'] or 'Hessian')
    s.add_callback(it.CostFunctionCallback(s, cost), cfg['mode'])
    s.iterate()
    x0 = [np.array(c.dat.data_ro, copy=True) for c in controls]
    mis, reg, series, times = inv.plain(x0, vs)
    ctx.ev('forward', round(float(im.J), 8))
    if not same(im.J_misfit, mis) or not same(im.J_reg, reg, tol=TOL_REG) or not same(im.J, mis + float(im.J_reg)):
        raise Violation('cost', f'the annotated forward run has J={float(im.J)!r} (misfit {float(im.J_misfit)!r}, regularisation {float(im.J_reg)!r}), a plain run misfit {mis!r}, regularisation {reg!r}')
    im.stop_annotating()
    rf = im.reduced_functional
    ctx.sim_time += cfg['n']*cfg['dt']
    amp = {'elev': 0.3, 'manning': 0.03, 'bath': 8.0, 'mconst': 0.03, 'real': 0.03, 'masked': 0.02}
    shapes = [np.cos(np.arange(len(a)) + j) for j, a in enumerate(x0)]
    amps = [amp['elev'], amp['manning']] if cfg['ctrl'] == 'two' else [amp[cfg['ctrl']]]*len(x0)
    want = []      # the accepted iterates: (control values, J, gradient norms)

    def point(x):
        out = []
        for c, a, sh, am in zip(controls, x0, shapes, amps):
            f = c.copy(deepcopy=True)
            f.dat.data[:] = a + x*am*(sh if len(a) > 1 else 1.0)
            out.append(f)
        return out

    def grad():
        import firedrake as fd
        g = rf.derivative(apply_riesz=True)
        g = g if isinstance(g, (list, tuple)) else [g]
        return g, [fd.norm(f) for f in g]

    for op in sc['ops']:
        k = op['op']
        if k == 'minimize':
            if len(want) == 0:
                try:
                    im.minimize(opt_method=op['method'], maxiter=op['maxiter'])
                except Exception as e:
                    if type(e).__name__ != 'SciPyConvergenceError':
                        raise Violation('run-failed', f'{type(e).__name__}: {e}', sig=type(e).__name__) from e
                    ctx.probe('optimiser_gave_up')
                ctx.fault('optimiser_run')
                want = None
            break
        if k == 'start':
            J = float(rf(controls))
            g, nrm = grad()
            im.set_initial_state(J, g, list(controls))
            want.append((x0, J, nrm))
        elif k == 'trial':
            rf(point(op['x']))
            ctx.fault('rejected_trial')
        elif k == 'gradient':
            rf(point(op['x']))
            grad()
            ctx.fault('rejected_trial_with_gradient')
        elif k == 'fail':
            # a trial point the forward model cannot digest
            p = point(0.0)
            p[0].dat.data[:] = np.nan
            try:
                rf(p)
            except Exception:
                pass
            ctx.fault('failed_forward_run')
        elif k == 'accept':
            p = point(op['x'])
            J = float(rf(p))
            g, nrm = grad()
            if op['again']:
                J = float(rf(p))
            im.get_optimization_callback()(p)
            want.append(([np.array(f.dat.data_ro, copy=True) for f in p], J, nrm))
        ctx.count('evaluations')
        ctx.ev(k, round(float(im.J), 6) if np.isfinite(im.J) else 'nan')
    judge(sc, ctx, inv, im, ms, vs, want, controls, times, outdir, masks)


def judge(sc, ctx, inv, im, ms, vs, want, controls, times, outdir, masks):
    import h5py
    import firedrake as fd
    cfg = sc['cfg']
    real = cfg['ctrl'] == 'real'
    n = len(im.J_progress)
    ctx.count('records', n)
    ctx.nontrivial = n > 1
    if want is not None and n != len(want):
        raise Violation('record-count', f'{len(want)} accepted iterates, {n} entries in J_progress')
    for name in ('J_reg_progress', 'J_misfit_progress', 'dJdm_progress') + (('m_progress',) if real else ()):
        if len(getattr(im, name)) != n:
            raise Violation('record-count', f'{name} has {len(getattr(im, name))} entries, J_progress {n}')
    if im.i != n:
        raise Violation('record-count', f'iteration counter {im.i} after {n} records')
    for k in range(n):
        J, Jr, Jm = (float(getattr(im, q)[k]) for q in ('J_progress', 'J_reg_progress', 'J_misfit_progress'))
        if not same(J, Jr + Jm):
            raise Violation('record-mixed', f'record {k}: J={J!r} is not regularisation {Jr!r} + misfit {Jm!r}')
        if want is not None:
            if not same(J, want[k][1]):
                raise Violation('record', f'record {k}: J={J!r}, the accepted iterate has {want[k][1]!r}')
            if not same(im.dJdm_progress[k], want[k][2]):
                raise Violation('record', f'record {k}: gradient norms {im.dJdm_progress[k]}, at the accepted iterate {want[k][2]}')
    if want is None:
        # an optimiser accepts no step that increases the cost
        for a, b in zip(im.J_progress, im.J_progress[1:]):
            if not b <= a*(1 + 1e-9) + 1e-12:
                raise Violation('record', f'the cost of accepted iterates increases: {[float(x) for x in im.J_progress]}')
    # what each record's controls give in a plain forward run
    vals = []
    if real:
        vals = [[np.array([m]) for m in im.m_progress[k]] for k in range(n)]
    else:
        for name in ('J_progress', 'J_reg_progress', 'J_misfit_progress', 'dJdm_progress'):
            a = np.load(os.path.join(outdir, f'{name}.npy'), allow_pickle=True)
            if not same(np.asarray(a, dtype=float), np.asarray(getattr(im, name), dtype=float)):
                raise Violation('progress-file', f'{name}.npy holds {a.tolist()}, the record is {getattr(im, name)}')
        nc = len(im.control_managers)
        for j in range(nc):
            files = sorted(f for f in os.listdir(os.path.join(outdir, 'hdf5')) if f.startswith(f'control_{j:02d}_'))
            if files != [f'control_{j:02d}_{k:05d}.h5' for k in range(n)]:
                raise Violation('control-files', f'{n} records, but files {files} for control {j}')
        for k in range(n):
            v = []
            for j in range(nc):
                cm = im.control_managers[j]
                name = 'control' if not cm.is_field else cm.controls[0].name()
                with fd.CheckpointFile(os.path.join(outdir, 'hdf5', f'control_{j:02d}_{k:05d}.h5'), 'r') as f:
                    v.append(np.array(f.load_function(life.World.get().mesh, name).dat.data_ro))
            vals.append(v)
            if want is None:
                continue
            w = want[k][0]
            if masks is not None:
                w = [sum(a[0]*m.dat.data_ro for a, m in zip(w, masks))]
            elif cfg['ctrl'] == 'mconst':
                w = [np.full(v[0].shape, w[0][0])]
            for a, b in zip(w, v):
                if not same(b, a):
                    raise Violation('control-content', f'control file {k} is off the accepted iterate by {np.abs(a - b).max():.3e}')
    ks = [0, n - 1] if n > 2 and sc['ops'][0]['op'] != 'minimize' else range(n)
    for k in sorted(set(ks)):
        x = want[k][0] if want is not None else vals[k]
        if want is None and masks is not None:
            continue
        if cfg['ctrl'] == 'mconst' and want is None:
            x = [np.array([x[0].mean()])]
        mis, reg, series, t = inv.plain(x, vs)
        if not same(im.J_misfit_progress[k], mis) or not same(im.J_reg_progress[k], reg, tol=TOL_REG):
            raise Violation('record-forward', f'record {k}: J={float(im.J_progress[k])!r} (misfit {float(im.J_misfit_progress[k])!r}), a plain run with its controls gives {mis + reg!r} (misfit {mis!r})')
        if real:
            continue
        for v in vs:
            for j, nm in enumerate(inv.names):
                p = os.path.join(outdir, f'diagnostic_timeseries_progress_{nm}_{v}.hdf5')
                with h5py.File(p, 'r') as f:
                    tt = np.array(f['time']).flatten()
                    a = np.array(f[v]) if v == 'elev' else np.stack([np.array(f[f'{v}_u_component']), np.array(f[f'{v}_v_component'])], axis=-1)
                    xy = (f.attrs['x'], f.attrs['y'])
                if xy != (inv.x[j], inv.y[j]):
                    raise Violation('station', f'{nm} is at {(inv.x[j], inv.y[j])}, its file says {xy}')
                if not same(tt, t):
                    raise Violation('station-time', f'{nm}: times {tt.tolist()}, the cost was evaluated at {t}')
                if len(a) != n:
                    raise Violation('station-count', f'{nm}: {len(a)} series on file for {n} records')
                if not same(a[k], series[v][:, j], scale=0.1):
                    raise Violation('station-series', f'{nm}: series {k} on file {a[k].tolist()}, a plain run with its controls gives {series[v][:, j].tolist()}')
