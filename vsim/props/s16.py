"""
S16  Solver objects that live at the same time do not influence each other: interleaved (also inside each other's
     forcing updates), restarted, failing or discarded, each one computes and writes what it does alone.
"""
import datetime
import gc
import os

import numpy as np

from .. import life, seams
from ..core import Violation
from .s06 import read_pvd, read_vtu

TOL = 1e-9


def vary(rng, cfg):
    """The same equations with other numbers and another fate."""
    c = dict(cfg)
    dt = c['dt']
    n = rng.randint(1, 3) if c['kind'] == '3d' else rng.randint(2, 6)
    c.update(texp=dt*rng.choice([1, 2]), tend=n*dt, amp=rng.choice([0.1, 0.2, 0.5]), depth=rng.choice([5.0, 10.0, 20.0]), diag=rng.random() < 0.5,
             date=rng.choice([None, None, '2011-05-01T06:00', '1999-12-31T23:59']), vtk=rng.choice([[], [], ['elev_2d'], ['uv_2d', 'elev_2d']]))
    if c['kind'] == '2d':
        c.update(kill=rng.choice([None, None, None, 'restart', 'discard', 'error']), kill_at=rng.randint(1, n), setup=rng.choice(['lazy', 'explicit']))
    return c


def gen_solver(rng, kind):
    if kind == '3d':
        dt = rng.choice([20.0, 50.0])
        return {'kind': '3d', 'ts': '3d', 'dt': dt, 'dt2d': dt/rng.choice([1, 2]), 'texp': dt*rng.choice([1, 2]), 'tend': dt*rng.randint(1, 3),
                'salt': rng.random() < 0.7, 'ale': rng.random() < 0.7, 'amp': rng.choice([0.2, 0.5]), 'hdf5': ['elev_2d', 'uv_2d', 'uv_3d'],
                'kill': None, 'setup': 'lazy', 'depth': rng.choice([10.0, 20.0]), 'params': {}, 'diag': rng.random() < 0.5}
    ts = rng.choice(['CrankNicolson', 'CrankNicolson', 'BackwardEuler', 'DIRK22', 'SSPRK33', 'ForwardEuler', 'PressureProjectionPicard', 'SSPIMEX'])
    dt = rng.choice([1.0, 2.5]) if ts in ('SSPRK33', 'ForwardEuler', 'SSPIMEX') else rng.choice([20.0, 50.0])
    n = rng.randint(2, 6)
    cfg = {'kind': '2d', 'ts': ts, 'family': 'dg-cg' if ts == 'PressureProjectionPicard' else rng.choice(['dg-dg', 'dg-dg', 'dg-dg', 'dg-cg']),
           'dt': dt, 'texp': dt*rng.choice([1, 2]), 'tend': n*dt, 'force': rng.choice(['none', 'vs', 'vs']), 'amp': rng.choice([0.1, 0.5]),
           'tracers': rng.choice([[], [], ['salt_2d'], ['a_2d'], ['a_2d', 'b_2d']]), 'params': {}, 'depth': rng.choice([5.0, 20.0]),
           'kill': rng.choice([None, None, None, 'restart', 'discard', 'error']), 'kill_at': rng.randint(1, n),
           'setup': rng.choice(['lazy', 'explicit']), 'diag': rng.random() < 0.6}
    if ts == 'SSPIMEX':
        cfg['tracers'] = []
    for key, vals in (('manning_drag_coefficient', [0.02, 0.05]), ('coriolis_frequency', [1e-4, -1e-4])):
        if rng.random() < 0.25:
            cfg['params'][key] = rng.choice(vals)
    if rng.random() < 0.2:
        cfg['params']['use_nonlinear_equations'] = False
    if rng.random() < 0.3:
        cfg['params']['bnd'] = rng.choice([{'elev': 0.1}, {'un': 0.01}, {'flux': 50.0}])
    if ts == 'PressureProjectionPicard':
        cfg['params'] = {}
    return cfg


def gen(rng, i, tier):
    # a few runs draw from the same set-ups and reuse their kernels
    erng, e = rng.epoch(5)
    pool = [gen_solver(erng, '3d' if e % 8 == 7 and k == 0 else '2d') for k in range(2)]
    n = rng.choice([2, 2, 2, 3, 3, 4])
    sv = [vary(rng, rng.choice(pool) if k else pool[i % 2]) for k in range(n)]
    if rng.random() < 0.4:
        # the same set-up twice, but for one number
        sv[1] = dict(sv[0], amp=sv[0]['amp']*rng.choice([1.0, 0.5]), dt=sv[0]['dt'])
        if sv[1]['kind'] == '2d' and rng.random() < 0.5:
            sv[1]['params'] = {}
    return {'solvers': sv, 'shared_mesh': rng.random() < 0.8,
            'schedule': [rng.randint(-1, n - 1) for _ in range(rng.randint(10, 120))]}


def valid(sc):
    return bool(sc['solvers'])


def shrink(sc):
    import copy
    for k in range(len(sc['solvers'])):
        if len(sc['solvers']) > 1:
            c = copy.deepcopy(sc)
            del c['solvers'][k]
            c['schedule'] = [x if x < k else x - 1 for x in c['schedule'] if x != k]
            yield c
    for k, s in enumerate(sc['solvers']):
        for key, val in (('kill', None), ('date', None), ('vtk', []), ('tracers', []), ('params', {}), ('force', 'none'), ('diag', False), ('setup', 'lazy')):
            if key in s and s[key] != val:
                c = copy.deepcopy(sc)
                c['solvers'][k][key] = val
                yield c


def dated(o, c):
    if c.get('date'):
        o.simulation_initial_date = datetime.datetime.fromisoformat(c['date']).replace(tzinfo=datetime.timezone.utc)


class M2(life.Model2D):
    def build(self, outdir, mesh2d):
        import thetis as th
        c = self.cfg
        s = super().build(outdir, mesh2d)
        o = s.options
        o.log_output = False
        dated(o, c)
        s.fields.bathymetry_2d.assign(c['depth'])
        o.check_volume_conservation_2d = c['diag']
        if 'manning_drag_coefficient' in c['params']:
            o.norm_smoother = th.Constant(1e-3)
        if c['tracers']:
            o.check_tracer_conservation = c['diag']
            o.tracer_timestepper_type = c['ts'] if c['ts'] in ('CrankNicolson', 'SSPRK33', 'ForwardEuler', 'DIRK22', 'BackwardEuler') else 'CrankNicolson'
        for k, v in c['params'].items():
            if k == 'bnd':
                s.bnd_functions['shallow_water'] = {1: {a: th.Constant(b) for a, b in v.items()}}
            elif isinstance(v, bool):
                setattr(o, k, v)
            else:
                setattr(o, k, th.Constant(v))
        return s

    def initial(self, s):
        import thetis as th
        x, y = th.SpatialCoordinate(s.mesh2d)
        kw = {}
        for n, lab in enumerate(self.cfg['tracers']):
            kw[lab] = 1.0 + th.Constant(self.cfg['amp'])*th.cos(th.pi*(x/3e3 + n*y/2e3))
        s.assign_initial_conditions(elev=th.Constant(self.cfg['amp'])*th.cos(th.pi*x/3e3), **kw)


class M3(life.Model3D):
    def build(self, outdir, mesh2d):
        s = super().build(outdir, mesh2d)
        s.options.log_output = False
        dated(s.options, self.cfg)
        s.options.check_volume_conservation_2d = self.cfg['diag']
        s.options.check_volume_conservation_3d = self.cfg['diag']
        return s

    def initial(self, s):
        import thetis as th
        s.initialize()
        xyz = th.SpatialCoordinate(s.mesh)
        kw = {'salt': 10 + xyz[0]/3e3} if self.cfg['salt'] else {}
        s.assign_initial_conditions(elev=th.Constant(self.cfg['amp'])*th.cos(th.pi*th.SpatialCoordinate(s.mesh2d)[0]/3e3), **kw)


class Fault(Exception):
    pass


def program(cfg, mesh, outdir, trace, switch):
    """One solver's life as a generator; yields wherever the application has control."""
    m = (M3 if cfg['kind'] == '3d' else M2)(None, trace['ctx'], dict(cfg, hdf5=cfg.get('hdf5', ['elev_2d', 'uv_2d'])))
    fields = list(m.state_fields) + cfg.get('tracers', [])

    def rec(s, what):
        trace['rec'].append((what, float(s.simulation_time), int(s.iteration), int(s.i_export),
                             {k: np.array(s.fields[k].dat.data_ro, copy=True) for k in fields}))

    def make():
        s = m.build(outdir, mesh)
        life.add_recorder(s, lambda: rec(s, 'step'), 'timestep')
        life.add_recorder(s, lambda: (switch(), rec(s, 'export')), 'export')
        return s
    s = make()
    yield
    m.force(0.0) if cfg['kind'] == '2d' else None
    if cfg['setup'] == 'explicit':
        s.create_function_spaces()
        yield
        s.create_equations()
        yield
        s.create_timestepper()
        yield
    m.initial(s)
    yield
    count = [0]

    def upd(t):
        switch()
        m.force(t)
        count[0] += 1
        if cfg['kill'] == 'error' and count[0] == cfg['kill_at']:
            raise Fault('forcing')
    if cfg['kind'] == '3d':
        s.iterate(update_forcings=upd, update_forcings3d=lambda t: switch())
        return
    n = 0
    it = s.create_iterator(update_forcings=upd)
    try:
        for t in it:
            n += 1
            yield
            if n == cfg['kill_at'] and cfg['kill'] in ('restart', 'discard'):
                it.close()
                break
    except Fault:
        trace['rec'].append(('fault', float(s.simulation_time), int(s.iteration), int(s.i_export), {}))
        return
    if cfg['kill'] == 'discard':
        del s, it
        gc.collect()
        return
    if cfg['kill'] == 'restart' and n == cfg['kill_at'] and not cfg['tracers']:
        i = int(s.i_export)
        del s, it
        gc.collect()
        yield
        s = make()
        yield
        m.force(i*cfg['texp'])
        s.load_state(i)
        yield
        for t in s.create_iterator(update_forcings=upd):
            yield


def files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            out[os.path.relpath(os.path.join(d, f), root)] = os.path.join(d, f)
    return out


def diagnostics(root):
    import h5py
    res = {}
    for n, p in files(root).items():
        if os.path.basename(n).startswith('diagnostic_'):
            with h5py.File(p, 'r') as f:
                for v in f:
                    res[f'{n}:{v}'] = np.array(f[v])
                    for a in f[v].attrs:
                        res[f'{n}:{v}@{a}'] = np.array(f[v].attrs[a])
                for a in f.attrs:
                    res[f'{n}@{a}'] = np.array(f.attrs[a])
        elif n.endswith('.vtu'):
            for v, x in read_vtu(p)[1].items():
                res[f'{n}:{v}'] = np.array(x, dtype=float)
        elif n.endswith('.pvd'):
            res[n] = np.array([float(x[0]) for x in read_pvd(p)])
    return res


def same(x, y):
    if x.shape != y.shape:
        return False
    if x.dtype.kind == 'f' and y.dtype.kind == 'f':
        return np.allclose(x, y, rtol=1e-9, atol=1e-7, equal_nan=True)
    return bool(np.all(x == y))


def run(sc, ctx):
    W = life.World.get()
    W2 = life.World.get(2, 3, 3e3, 2e3)
    from firedrake.exceptions import ConvergenceError
    seams.use(None)
    solvers = sc['solvers']
    meshes = [W.mesh if sc['shared_mesh'] or k % 2 == 0 else W2.mesh for k in range(len(solvers))]
    # each one alone
    solo = []
    for k, cfg in enumerate(solvers):
        life.reset_logging()
        tr = {'rec': [], 'ctx': ctx}
        d = os.path.join(ctx.scratch, f'solo{k}')
        try:
            for _ in program(cfg, meshes[k], d, tr, lambda: None):
                pass
        except ConvergenceError:
            # a set-up this integrator cannot solve: it must fail in the same way with others around
            tr['rec'].append(('diverged', 0.0, 0, 0, {}))
            ctx.probe('diverged')
        solo.append((tr['rec'], sorted(files(d)), diagnostics(d)))
        life.rm(d)
        gc.collect()
        ctx.ev('alone', k, [(r[0], round(r[1], 6)) for r in tr['rec']])
    # together
    life.reset_logging()
    sched = list(sc['schedule'])
    progs = []
    depth = [0]
    active = [False]*len(solvers)
    done = [False]*len(solvers)

    def advance(k):
        active[k] = True
        depth[0] += 1
        if depth[0] > 1:
            ctx.probe('nested_in_other_solver')
            ctx.nontrivial = True
        ctx.ev('run', k, depth[0])
        try:
            next(progs[k])
        except StopIteration:
            done[k] = True
        except ConvergenceError:
            traces[k]['rec'].append(('diverged', 0.0, 0, 0, {}))
            done[k] = True
        except Exception as e:
            raise Violation('raised', f'solver {k} runs alone, but raised {type(e).__name__}: {e} with others around', sig=f'raised {type(e).__name__}') from e
        finally:
            active[k] = False
            depth[0] -= 1

    def switch():
        if sched:
            k = sched.pop(0)
            if 0 <= k < len(solvers) and not active[k] and not done[k] and depth[0] < 4:
                advance(k)
    traces = []
    dirs = []
    for k, cfg in enumerate(solvers):
        tr = {'rec': [], 'ctx': ctx}
        d = os.path.join(ctx.scratch, f'together{k}')
        traces.append(tr)
        dirs.append(d)
        progs.append(program(cfg, meshes[k], d, tr, switch))
    last = None
    while not all(done):
        k = sched.pop(0) if sched else -1
        if not 0 <= k < len(solvers) or done[k]:
            k = done.index(False)
        if last is not None and last != k:
            ctx.fault('context_switch')
            ctx.nontrivial = True
        last = k
        advance(k)
    for k, cfg in enumerate(solvers):
        a, b = solo[k][0], traces[k]['rec']
        ctx.count('steps', sum(r[0] == 'step' for r in b))
        if b:
            ctx.sim_time += b[-1][1]
        if cfg['kill']:
            ctx.fault(cfg['kill'])
        if [r[:4] for r in a] != [r[:4] for r in b]:
            raise Violation('history', f'solver {k} ({cfg["kind"]}, {cfg["ts"]}): alone {[r[:4] for r in a]}, with others {[r[:4] for r in b]}')
        for x, y in zip(a, b):
            for key in x[4]:
                d = life.reldiff(x[4][key], y[4][key])
                if not d <= TOL:
                    raise Violation('state', f'solver {k} ({cfg["kind"]}, {cfg["ts"]}): {key} at t={x[1]} ({x[0]}) differs by {d:.3e} from the same run alone')
        f = sorted(files(dirs[k]))
        if f != solo[k][1]:
            raise Violation('files', f'solver {k} alone wrote {solo[k][1]}, with others {f}')
        dg = diagnostics(dirs[k])
        for v in sorted(set(solo[k][2]) | set(dg)):
            x, y = solo[k][2].get(v), dg.get(v)
            if x is None or y is None or not same(x, y):
                raise Violation('diagnostics', f'solver {k}: {v} holds {None if y is None else y.tolist()}, alone {None if x is None else x.tolist()}')
