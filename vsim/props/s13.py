"""
S13  Diagnostics report the present state: whatever was evaluated, failed, moved or re-assigned before, every detector,
     time series, profile, transect, integral and accumulator gives the value its definition gives for the fields,
     mesh and time of the moment, and what it has returned does not change afterwards.
"""
import os

import numpy as np

from .. import life, seams
from ..core import Violation

TOL = 1e-8


def gen(rng, i, tier):
    dim = rng.choice(['2d', '2d', '2d', '3d'])
    cfg = {'kind': dim, 'family': rng.choice(['dg-dg', 'dg-dg', 'rt-dg', 'dg-cg', 'bdm-dg']) if dim == '2d' else 'dg-dg',
           'nonlinear': rng.random() < 0.85, 'wd': dim == '2d' and rng.random() < 0.2, 'farm': dim == '2d' and rng.random() < 0.4, 'dt': rng.choice([1.0, 20.0, 37.5])}
    if not cfg['nonlinear']:
        cfg['wd'] = False
    kinds = ['det', 'det', 'ts2', 'vol2', 'acc', 'acc'] + (['mass', 'cmass', 'over', 'func'] if dim == '2d' else ['ts3', 'prof', 'trans', 'trans', 'prof', 'vol3', 'mass3', 'over3'])
    if cfg['farm']:
        kinds += ['turb', 'turb']
    ops = []
    ncb = 0
    for _ in range(rng.randint(6, 30)):
        r = rng.random()
        if r < 0.25 or ncb == 0:
            k = rng.choice(kinds)
            n = rng.choice([1, 1, 2, 3, 5])
            ops.append({'op': 'new', 'kind': k, 'pts': [[rng.randint(0, 10**6)] + bary(rng) for _ in range(n)], 'z': [rng.uniform(0.02, 0.98) for _ in range(2)],
                        'fields': rng.sample(['elev_2d', 'uv_2d', 'a_2d', 'bathymetry_2d'] if dim == '2d' else ['salt_3d', 'uv_3d', 'temp_3d'], rng.choice([1, 1, 2, 3])),
                        'nz': rng.choice([2, 3, 7]), 'zlim': rng.choice([None, None, 0.3]), 'mode': rng.choice(['export', 'timestep']),
                        'window': rng.choice([None, None, None, 0, 1, 2]), 'poison': rng.random() < 0.3})
            ncb += 1
        elif r < 0.45:
            ops.append({'op': 'state', 'seed': rng.randint(0, 10**9), 'what': rng.choice(['all', 'all', 'elev', 'uniform', 'bath', 'shift'])})
        elif r < 0.6:
            ops.append({'op': 'clock', 'd': rng.choice([cfg['dt'], cfg['dt'], 2*cfg['dt'], 0.0, 7.25, 0.5*cfg['dt']])})
        elif r < 0.85:
            ops.append({'op': 'call', 'k': rng.randint(0, 50), 'fail': rng.random() < 0.12})
        else:
            ops.append({'op': 'evaluate', 'mode': rng.choice(['export', 'timestep'])})
    return {'cfg': cfg, 'ops': ops}


def bary(rng):
    a, b = rng.uniform(0.02, 0.98), rng.uniform(0.02, 0.98)
    if a + b > 0.98:
        a, b = 0.5*a, 0.5*b
    return [round(a, 4), round(b, 4)]


def valid(sc):
    return bool(sc['ops'])


def shrink(sc):
    import copy
    for key, val in (('farm', False), ('wd', False), ('family', 'dg-dg'), ('nonlinear', True)):
        if sc['cfg'][key] != val:
            c = copy.deepcopy(sc)
            c['cfg'][key] = val
            if key == 'farm':
                c['ops'] = [o for o in c['ops'] if o.get('kind') != 'turb']
            yield c
    for k, o in enumerate(sc['ops']):
        if o['op'] == 'new':
            for key, val in (('window', None), ('poison', False), ('zlim', None)):
                if o[key] != val:
                    c = copy.deepcopy(sc)
                    c['ops'][k][key] = val
                    yield c
            if len(o['pts']) > 1:
                c = copy.deepcopy(sc)
                c['ops'][k]['pts'] = o['pts'][:1]
                yield c


class Tri:
    """Point values of fields on a triangle mesh or its extrusion, from degrees of freedom and node coordinates only."""
    def __init__(self, mesh2d):
        import thetis as th
        V = th.VectorFunctionSpace(mesh2d, 'DG', 1, variant='equispaced')
        self.X = np.array(th.Function(V).interpolate(mesh2d.coordinates).dat.data_ro)
        self.cells = V.cell_node_map().values
        order = sorted(range(len(self.cells)), key=lambda c: tuple(np.round(self.X[self.cells[c]].mean(axis=0), 6)))
        self.order = order
        p = self.X[self.cells]
        d1, d2 = p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]
        self.area = 0.5*np.abs(d1[:, 0]*d2[:, 1] - d1[:, 1]*d2[:, 0])

    def point(self, spec):
        """(x, y) well inside a cell."""
        c = self.order[spec[0] % len(self.order)]
        v = self.X[self.cells[c]]
        v = v[np.lexsort((v[:, 1], v[:, 0]))]
        a, b = spec[1], spec[2]
        x = v[0] + a*(v[1] - v[0]) + b*(v[2] - v[0])
        return float(x[0]), float(x[1])

    def cell(self, x, y):
        for c, nodes in enumerate(self.cells):
            v = self.X[nodes]
            T = np.array([v[1] - v[0], v[2] - v[0]]).T
            l = np.linalg.solve(T, np.array([x, y]) - v[0])
            if l[0] >= 0 and l[1] >= 0 and l.sum() <= 1:
                return c
        raise AssertionError('point outside')

    def value2d(self, f, x, y):
        import thetis as th
        V = f.function_space()
        mesh = V.mesh()
        vec = V.value_size > 1
        deg = 2 if f.function_space().ufl_element().degree() > 1 else 1
        W = th.VectorFunctionSpace(mesh, 'DG', deg) if vec else th.FunctionSpace(mesh, 'DG', deg)
        C = th.VectorFunctionSpace(mesh, 'DG', deg)
        a = np.array(th.Function(W).interpolate(f).dat.data_ro)
        X = np.array(th.Function(C).interpolate(mesh.coordinates).dat.data_ro)
        c = self.cell(x, y)
        nodes = W.cell_node_map().values[c]
        o = X[nodes].mean(axis=0)
        s = np.abs(X[nodes] - o).max()

        def mono(p):
            u, v = (p[..., 0] - o[0])/s, (p[..., 1] - o[1])/s
            m = [np.ones_like(u), u, v]
            if deg == 2:
                m += [u*u, u*v, v*v]
            return np.stack(m, axis=-1)
        coef = np.linalg.solve(mono(X[nodes]), a[nodes])
        return np.atleast_1d(mono(np.array([x, y])) @ coef)

    def integral(self, fs):
        """Integral over the 2D mesh of the product of piecewise linear nodal arrays (cells, 3)."""
        if len(fs) == 1:
            return float((self.area*fs[0].mean(axis=1)).sum())
        a, b = fs
        return float((self.area/12*((a*b).sum(axis=1) + a.sum(axis=1)*b.sum(axis=1))).sum())

    def cellvals(self, f):
        import thetis as th
        V = th.FunctionSpace(f.function_space().mesh(), 'DG', 1, variant='equispaced')
        return np.array(th.Function(V).interpolate(f).dat.data_ro)[V.cell_node_map().values]

    def columns(self, mesh, layers):
        """(n cells, layers, 3, 2, 3) coordinates of the wedges."""
        import thetis as th
        return self.wedges(mesh.coordinates, layers)

    def wedges(self, f, layers):
        import thetis as th
        V = f.function_space()
        el = th.TensorProductElement(*(th.FiniteElement('DG', c, 1, variant='equispaced') for c in (th.triangle, th.interval)))
        V = (th.VectorFunctionSpace if V.value_size > 1 else th.FunctionSpace)(V.mesh(), el)
        f = th.Function(V).interpolate(f)
        nodes = V.cell_node_map().values          # bottom cell of each column
        off = V.cell_node_map().offset
        a = np.array(f.dat.data_ro)
        out = np.zeros((len(nodes), layers) + (3, 2) + a.shape[1:])
        for k in range(layers):
            out[:, k] = a[nodes + k*off].reshape((len(nodes), 3, 2) + a.shape[1:])
        return out

    def value3d(self, f, mesh, layers, x, y, z):
        X = self.columns(mesh, layers)
        F = self.wedges(f, layers)
        for c in range(X.shape[0]):
            v = X[c, 0, :, 0, :2]
            T = np.array([v[1] - v[0], v[2] - v[0]]).T
            l = np.linalg.solve(T, np.array([x, y]) - v[0])
            l = np.array([1 - l.sum(), l[0], l[1]])
            if l.min() < 0:
                continue
            for k in range(layers):
                zb, zt = l @ X[c, k, :, 0, 2], l @ X[c, k, :, 1, 2]
                if zb > zt:
                    raise AssertionError('layer upside down')
                s = (z - zb)/(zt - zb)
                if -1e-9 <= s <= 1 + 1e-9:
                    near = min(abs(s), abs(1 - s)) < 1e-6
                    val = (1 - s)*np.tensordot(l, F[c, k, :, 0], 1) + s*np.tensordot(l, F[c, k, :, 1], 1)
                    return None if near and not (k == 0 and s < 0.5) and not (k == layers - 1 and s > 0.5) else np.atleast_1d(val)
            return None
        raise AssertionError('point outside')


class Poison(Exception):
    pass


def run(sc, ctx):
    import thetis as th
    from thetis import callback as cbm
    W = life.World.get()
    cfg = sc['cfg']
    seams.use(None)
    life.reset_logging()
    three = cfg['kind'] == '3d'
    layers = 3
    P1 = th.get_functionspace(W.mesh, 'CG', 1)
    x, y = th.SpatialCoordinate(W.mesh)
    b = th.Function(P1).interpolate(20.0 + 4.0*x/3e3 - 2.0*y/2e3)
    if three:
        s = th.solver.FlowSolver(W.mesh, b, layers)
        o = s.options
        o.timestepper_options.use_automatic_timestep = False
        o.timestep_2d = cfg['dt']
        o.solve_salinity = o.solve_temperature = True
        o.use_ale_moving_mesh = True
        o.use_bottom_friction = False
    else:
        s = th.solver2d.FlowSolver2d(W.mesh, b)
        o = s.options
        o.use_nonlinear_equations = cfg['nonlinear']
        o.use_wetting_and_drying = cfg['wd']
        if cfg['wd']:
            o.wetting_and_drying_alpha = th.Constant(0.8)
        o.add_tracer_2d('a_2d', 'a', 'Tracer_a')
        if cfg['farm']:
            f = th.TidalTurbineFarmOptions()
            f.turbine_density = th.Function(P1).assign(1e-5)
            f.turbine_options.diameter = 18.0
            f.turbine_options.thrust_coefficient = 0.6
            f.break_even_wattage = 1000.0
            o.tidal_turbine_farms = {'everywhere': [f]}
    o.element_family = cfg['family']
    o.timestep = cfg['dt']
    o.simulation_export_time = cfg['dt']
    o.simulation_end_time = 10*cfg['dt']
    o.log_output = False
    o.no_exports = True
    o.output_directory = os.path.join(ctx.scratch, 'out')
    s.initialize()
    s.simulation_time = 0.0
    s.iteration = 0
    g = Tri(W.mesh)
    if three:
        X3 = th.SpatialCoordinate(s.mesh)
    from firedrake import assemble, dx

    def state(op):
        rs = np.random.RandomState(op['seed'] % 2**31)
        what = op['what']

        def rnd(f, lo, hi):
            f.dat.data[...] = rs.uniform(lo, hi, f.dat.data_ro.shape)
        if what == 'bath':
            if not three:
                rnd(s.fields.bathymetry_2d, 4.0, 30.0)
            return
        if what == 'uniform' or cfg['farm']:
            # with turbines the velocity is uniform, as the cube of its norm is integrated by quadrature
            s.fields.uv_2d.project(th.as_vector((th.Constant(rs.uniform(0.5, 2)), th.Constant(rs.uniform(-2, 2)))))
            if what == 'uniform':
                return
        if what == 'shift':
            f = s.fields[['elev_2d', 'uv_2d'][op['seed'] % 2 if not cfg['farm'] else 0]]
            f.dat.data[...] += 0.125
        else:
            rnd(s.fields.elev_2d, -1.0, 1.0)
        if what == 'all':
            if not cfg['farm']:
                rnd(s.fields.uv_2d, -1.5, 1.5)
            if three:
                for n in ('salt_3d', 'temp_3d', 'uv_3d'):
                    rnd(s.fields[n], 1.0, 30.0)
            else:
                rnd(s.fields.a_2d, 0.5, 9.0)
        if three:
            s.mesh_updater.update_mesh_coordinates()
            ctx.probe('mesh_moved')

    cbs = []
    returned = []
    file_ref = {}
    poison = [False]

    def functional(which):
        def fn():
            if poison[0]:
                raise Poison('functional')
            e = s.fields.elev_2d
            return float(assemble(e*e*dx)) if which else float(assemble((e + 2)*dx))
        return fn

    def ref_functional(which):
        if which:
            # elevation squared: exact for the piecewise polynomials of the model
            return float(assemble(s.fields.elev_2d**2*dx(degree=4)))
        return float(assemble((s.fields.elev_2d + 2)*dx(degree=3)))

    class Cb:
        pass

    def new(op, n):
        c = Cb()
        c.kind = k = op['kind']
        pts = [g.point(p) for p in op['pts']]
        kw = {}
        c.window = None
        if op['window'] is not None and k in ('det', 'ts2', 'ts3', 'vol2', 'acc', 'mass'):
            t = s.simulation_time
            c.window = [(t + cfg['dt'], None), (None, t + cfg['dt']), (t + cfg['dt'], t + 3*cfg['dt'])][op['window']]
            kw = {a: v for a, v in zip(('start_time', 'end_time'), c.window) if v is not None}
        c.mode = op['mode']
        c.first = None
        c.hist = []
        c.trap = 0.0
        c.rows = []
        c.exact = True
        name = f'cb{n}'
        c.fields = op['fields']
        if three and k in ('det', 'ts2'):
            c.fields = ['elev_2d', 'uv_2d', 'bathymetry_2d'][:len(op['fields'])]
        if k in ('ts2', 'ts3', 'prof'):
            # one scalar per field
            c.fields = [f for f in c.fields if not f.startswith('uv')] or (['salt_3d'] if three and k != 'ts2' else ['elev_2d'])
        c.pts = pts
        c.extra_z = None
        if k == 'det':
            c.obj = cbm.DetectorsCallback(s, pts, c.fields, name=name, **kw)
        elif k == 'ts2':
            c.pts = pts[:1]
            c.obj = cbm.TimeSeriesCallback2D(s, c.fields, *c.pts[0], name, append_to_log=True, **kw)
        elif k == 'ts3':
            c.pts = pts[:1]
            c.extra_z = -3.0 - 12.0*op['z'][0]      # below any surface, above any bed
            c.obj = cbm.TimeSeriesCallback3D(s, c.fields, *c.pts[0], c.extra_z, name, **kw)
        elif k == 'prof':
            c.pts = pts[:1]
            c.nz = op['nz']
            c.obj = cbm.VerticalProfileCallback(s, c.fields, *c.pts[0], name, npoints=c.nz)
        elif k == 'trans':
            c.nz = op['nz']
            c.zlim = op['zlim']
            kz = {} if c.zlim is None else {'z_min': -15.0, 'z_max': -1.5}
            c.obj = cbm.TransectCallback(s, c.fields, [p[0] for p in pts], [p[1] for p in pts], name, n_points_z=c.nz, **kz)
        elif k == 'vol2':
            c.obj = cbm.VolumeConservation2DCallback(s, **kw)
        elif k == 'vol3':
            c.obj = cbm.VolumeConservation3DCallback(s)
        elif k == 'mass':
            c.obj = cbm.TracerMassConservation2DCallback('a_2d', s, **kw)
        elif k == 'cmass':
            c.obj = cbm.ConservativeTracerMassConservation2DCallback('a_2d', s)
        elif k == 'mass3':
            c.obj = cbm.TracerMassConservationCallback('salt_3d', s)
        elif k in ('over', 'over3'):
            c.field = 'a_2d' if k == 'over' else 'salt_3d'
            c.obj = cbm.TracerOvershootCallBack(c.field, s)
        elif k == 'func':
            c.which = 0
            c.obj = type('Scalar', (cbm.ScalarConservationCallback,), {'name': 'scalar'})(functional(0), s)
            c.obj.name = name
        elif k == 'acc':
            c.which = op['nz'] % 2
            c.obj = type('Accumulator', (cbm.AccumulatorCallback,), {'name': 'accumulator'})(functional(c.which), s, **kw)
        elif k == 'turb':
            from thetis.turbines import TurbineFunctionalCallback
            c.obj = TurbineFunctionalCallback(s)
        if k not in ('det', 'ts2', 'ts3', 'prof', 'trans'):
            c.obj.name = name
        c.name = c.obj.name
        s.add_callback(c.obj, eval_interval=c.mode)
        return c

    def expect(c):
        """Reference result of one call in the present state, as a list of arrays (None: not judged); updates the history."""
        t = float(s.simulation_time)
        k = c.kind
        if k == 'det':
            return [np.array([np.concatenate([g.value2d(s.fields[f], *p) for f in c.fields]) for p in c.pts])]
        if k == 'ts2':
            return [g.value2d(s.fields[f], *c.pts[0]) for f in c.fields]
        if k == 'ts3':
            return [g.value3d(s.fields[f], s.mesh, layers, *c.pts[0], c.extra_z) for f in c.fields]
        if k in ('prof', 'trans'):
            cols = []
            for p in c.pts:
                bot = -g.value2d(s.fields.bathymetry_2d, *p)[0]
                top = g.value2d(s.fields.elev_cg_2d, *p)[0]
                eps = 1e-2 if k == 'prof' else 1e-5
                zb, zt = bot + eps, top - eps
                if k == 'trans' and c.zlim is not None:
                    zb, zt = max(zb, -15.0), min(zt, -1.5)
                cols.append(zt + (zb - zt)*np.linspace(0, 1, c.nz))
            Z = np.array(cols).T
            res = [Z[:, 0] if k == 'prof' else Z]
            for f in c.fields:
                v = [[g.value3d(s.fields[f], s.mesh, layers, *p, Z[i, j]) for j, p in enumerate(c.pts)] for i in range(c.nz)]
                n = 3 if f.startswith('uv') else 1
                a = np.array([[np.full(n, np.nan) if q is None else q for q in row] for row in v])
                if k == 'prof':
                    res.append(a[:, 0, 0])
                else:
                    res += [a[..., m] for m in range(n)]
            return res
        if k in ('vol2', 'vol3', 'mass', 'cmass', 'mass3', 'func'):
            if k == 'vol2':
                v = g.integral([g.cellvals(s.fields.elev_2d) + g.cellvals(s.fields.bathymetry_2d)]) if cfg['family'] != 'dg-cg' else float(assemble((s.fields.elev_2d + s.fields.bathymetry_2d)*dx(degree=3)))
            elif k == 'vol3':
                Xc = g.columns(s.mesh, layers)
                h = Xc[:, -1, :, 1, 2] - Xc[:, 0, :, 0, 2]
                v = g.integral([h])
            elif k == 'mass':
                if cfg['family'] == 'dg-cg' or cfg['wd']:
                    H = s.fields.bathymetry_2d + (s.fields.elev_2d if cfg['nonlinear'] else 0)
                    if cfg['wd']:
                        H = H + 0.5*(th.sqrt(H**2 + 0.8**2) - H)
                    v = float(assemble(s.fields.a_2d*H*dx))
                else:
                    H = g.cellvals(s.fields.bathymetry_2d) + (g.cellvals(s.fields.elev_2d) if cfg['nonlinear'] else 0)
                    v = g.integral([g.cellvals(s.fields.a_2d), H])
            elif k == 'cmass':
                v = g.integral([g.cellvals(s.fields.a_2d)])
            elif k == 'mass3':
                Xc, S = g.columns(s.mesh, layers), g.wedges(s.fields.salt_3d, layers)
                v = 0.0
                for q in range(layers):
                    h = Xc[:, q, :, 1, 2] - Xc[:, q, :, 0, 2]
                    v += g.integral([S[:, q].mean(axis=2), h])
            else:
                v = ref_functional(c.which)
            if c.first is None:
                c.first = v
            return [np.array(v), np.array((v - c.first)/c.first)]
        if k in ('over', 'over3'):
            a = s.fields[c.field].dat.data_ro
            lo, hi = float(a.min()), float(a.max())
            if c.first is None:
                c.first = (lo, hi)
            return [np.array(lo), np.array(hi), np.array(min(lo - c.first[0], 0.0)), np.array(max(hi - c.first[1], 0.0))]
        if k == 'acc':
            v = ref_functional(c.which)
            if c.hist:
                c.trap += 0.5*(v + c.hist[-1][1])*(t - c.hist[-1][0])
            c.hist.append((t, v))
            return [np.array(v)]
        if k == 'turb':
            uv = s.fields.uv_2d
            A, cp = np.pi*18.0**2/4, 0.5*0.6*(1 + np.sqrt(1 - 0.6))
            P = float(assemble(0.5*th.physical_constants['rho0']*A*cp*(uv[0]**2 + uv[1]**2)**1.5*1e-5*dx(domain=W.mesh, degree=10)))
            c.hist.append(P)
            m = float(np.mean(c.hist))
            return [np.array([P]), np.array([m]), np.array([m - 1000.0*1e-5*float(g.area.sum())])]

    def compare(c, got, ref, what):
        if not isinstance(got, (tuple, list)) or c.kind in ('det',):
            got = [got]
        if len(got) != len(ref):
            raise Violation('shape', f'{c.name} ({c.kind}) {what}: {len(got)} results, expected {len(ref)}')
        for n, (a, r) in enumerate(zip(got, ref)):
            if r is None:
                continue
            a = np.array(a, dtype=float)
            if a.size == r.size:
                a = a.reshape(r.shape)
            tol = 1e-6 if c.kind in ('turb', 'ts3', 'prof', 'trans') or cfg['wd'] else TOL
            sc_ = max(1.0, float(np.nanmax(np.abs(r))) if r.size and not np.all(np.isnan(r)) else 1.0)
            if a.shape != r.shape or not np.all(np.isnan(r) | (np.abs(a - r) <= tol*sc_)):
                raise Violation('value', f'{c.name} ({c.kind}, {getattr(c, "fields", "")}) {what}: result {n} is {a.tolist()}, the present state gives {r.tolist()}', sig=f'value {c.kind}')

    def inside(c):
        if c.window is None:
            return True
        t = s.simulation_time
        lo, hi = c.window
        return (lo is None or t >= lo) and (hi is None or t <= hi)

    state({'seed': 12345, 'what': 'all'})
    for op in sc['ops']:
        ctx.ev(op['op'], op.get('kind', op.get('k')), round(float(s.simulation_time), 6))
        if op['op'] == 'new':
            cbs.append(new(op, len(cbs)))
        elif op['op'] == 'state':
            state(op)
            ctx.nontrivial = True
        elif op['op'] == 'clock':
            s.simulation_time += op['d']
            ctx.sim_time += op['d']
            ctx.fault('uneven_interval') if op['d'] != cfg['dt'] else None
        elif op['op'] == 'call' and cbs:
            c = cbs[op['k'] % len(cbs)]
            if op['fail'] and c.kind in ('acc', 'func'):
                poison[0] = True
                try:
                    c.obj()
                except Poison:
                    ctx.fault('evaluation_fails')
                finally:
                    poison[0] = False
                continue
            ref = expect(c)
            got = c.obj()
            compare(c, got, ref, 'called')
            returned.append((c, got, ref))
            if c.kind == 'acc':
                v = c.obj.get_val()
                if not abs(v - c.trap) <= 1e-8*max(1.0, abs(c.trap)):
                    raise Violation('accumulated', f'{c.name}: accumulated {v}, the trapezium rule over {c.hist} gives {c.trap}')
        elif op['op'] == 'evaluate':
            before = [(c, expect(c)) for c in cbs if c.mode == op['mode'] and inside(c)]
            s.callbacks.evaluate(op['mode'])
            for c, ref in before:
                c.rows.append((float(s.simulation_time), ref))
                if c.kind == 'acc' and not abs(c.obj.get_val() - c.trap) <= 1e-8*max(1.0, abs(c.trap)):
                    raise Violation('accumulated', f'{c.name}: accumulated {c.obj.get_val()}, the trapezium rule over {c.hist} gives {c.trap}')
        ctx.count('operations')
    # what was returned is still what it was
    for c, got, ref in returned:
        compare(c, got, ref, 'returned earlier, looked at in the end')
    # files
    import h5py
    for c in cbs:
        if not c.rows or not c.obj.append_to_hdf5:
            continue
        p = os.path.join(o.output_directory, f'diagnostic_{c.name.replace(" ", "_")}.hdf5')
        with h5py.File(p, 'r') as f:
            names = list(c.obj.variable_names)
            times = np.array(f['time']).ravel()
            if not np.allclose(times, [r[0] for r in c.rows], rtol=0, atol=1e-9):
                raise Violation('file', f'{c.name}: file has times {times.tolist()}, evaluated at {[r[0] for r in c.rows]}')
            for n, nm in enumerate(names):
                d = np.array(f[nm])
                for row, (t, ref) in enumerate(c.rows):
                    r = ref[0][n] if c.kind == 'det' else ref[n]
                    if r is None:
                        continue
                    a, r = np.array(d[row], dtype=float).ravel(), np.ravel(np.array(r, dtype=float))
                    big = np.max(np.abs(r[~np.isnan(r)]), initial=1.0)
                    if a.shape != r.shape or not np.all(np.isnan(r) | (np.abs(a - r) <= 1e-6*big)):
                        raise Violation('file', f'{c.name} ({c.kind}): {nm} at t={t} is {a.tolist()} in the file, the state gave {np.asarray(r).tolist()}', sig=f'file {c.kind}')
