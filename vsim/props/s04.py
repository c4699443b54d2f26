"""
S04  Every time integrator advances with the forcing of the right instant and with its own published scheme, whatever
     the history of steps, step-size changes, re-initialisations, forcing changes and restarts.
"""
import os

import numpy as np

from .. import life, seams
from ..core import Violation

# Butcher tableaux as published (Ascher et al. 1997, Higueras et al. 2014, Gottlieb & Shu), independent of the code
G2 = 1 - np.sqrt(0.5)
G23 = (3 + np.sqrt(3))/6
G3 = 0.4358665215
B31 = -1.5*G3**2 + 4*G3 - 0.25
B32 = 1.5*G3**2 - 5*G3 + 1.25
L2 = 2/11
TAB = {
    'BackwardEuler': ([[1]], [1], [1]),
    'BackwardEulerUForm': ([[1]], [1], [1]),
    'ImplicitMidpoint': ([[.5]], [1], [.5]),
    'CrankNicolsonRK': ([[0, 0], [.5, .5]], [.5, .5], [0, 1]),
    'DIRK22': ([[G2, 0], [1 - G2, G2]], [1 - G2, G2], [G2, 1]),
    'DIRK22UForm': ([[G2, 0], [1 - G2, G2]], [1 - G2, G2], [G2, 1]),
    'DIRK23': ([[G23, 0], [1 - 2*G23, G23]], [.5, .5], [G23, 1 - G23]),
    'DIRK33': ([[G3, 0, 0], [(1 - G3)/2, G3, 0], [B31, B32, G3]], [B31, B32, G3], [G3, (1 + G3)/2, 1]),
    'DIRK33UForm': ([[G3, 0, 0], [(1 - G3)/2, G3, 0], [B31, B32, G3]], [B31, B32, G3], [G3, (1 + G3)/2, 1]),
    'DIRK43': ([[.5, 0, 0, 0], [1/6, .5, 0, 0], [-.5, .5, .5, 0], [1.5, -1.5, .5, .5]], [1.5, -1.5, .5, .5], [.5, 2/3, .5, 1]),
    'DIRKLSPUM2': ([[L2, 0, 0], [205/462, L2, 0], [2033/4620, 21/110, L2]], [24/55, 1/5, 4/11], [L2, 289/462, 751/924]),
    'DIRKLPUM2': ([[L2, 0, 0], [41/154, L2, 0], [289/847, 42/121, L2]], [1/3, 1/3, 1/3], [L2, 69/154, 67/77]),
    'SSPRK33': ([[0, 0, 0], [1, 0, 0], [.25, .25, 0]], [1/6, 1/6, 2/3], [0, 1, .5]),
    'ERKLSPUM2': ([[0, 0, 0], [5/6, 0, 0], [11/24, 11/24, 0]], [24/55, 1/5, 4/11], [0, 5/6, 11/12]),
    'ERKLPUM2': ([[0, 0, 0], [.5, 0, 0], [.5, .5, 0]], [1/3, 1/3, 1/3], [0, .5, 1]),
    'ERKMidpoint': ([[0, 0], [.5, 0]], [0, 1], [0, .5]),
    'ERKEuler': ([[0]], [1], [0]),
    'ESDIRKTrapezoid': ([[0, 0], [.5, .5]], [.5, .5], [0, 1]),
}
IMEX = {'IMEXLPUM2': ('DIRKLPUM2', 'ERKLPUM2'), 'IMEXLSPUM2': ('DIRKLSPUM2', 'ERKLSPUM2')}
UFORM = ('BackwardEulerUForm', 'DIRK22UForm', 'DIRK33UForm')
THETA = ('CrankNicolson', 'ForwardEuler')
DIRECT = sorted(TAB) + sorted(IMEX) + list(THETA)*2
SOLVER = ['CrankNicolson', 'CrankNicolson', 'BackwardEuler', 'DIRK22', 'DIRK33', 'SSPRK33', 'ForwardEuler', 'SSPIMEX']
NEEDS_INIT = set(IMEX) | {k for k in TAB if k.startswith('ERK')}   # keep their own copy of the last solution


def gen(rng, i, tier):
    forc = {'kind': rng.choice(['const', 'lin', 'quad', 'cos', 'cos', 'step']), 'a': rng.uniform(-1, 1), 'b': rng.uniform(-1, 1),
            'w': rng.uniform(0.1, 3)}
    erng, e = rng.epoch(4)
    if e % 8 == 5 and rng.random() < 0.6:
        ts3 = erng.choice(['SSPRK22', 'SSPRK22', 'LeapFrog', 'LeapFrog'])
        cfg = {'mode': 'solver3d', 'ts3d': ts3, 'ale': ts3 == 'LeapFrog' or erng.random() < 0.7, 'temp': erng.random() < 0.5, 'lim': erng.random() < 0.5, 'diff': erng.random() < 0.4}
        return {**cfg, 'dt': rng.choice([1.0, 10.0, 50.0]), 'forcing': forc, 'what': rng.choice(['tracer', 'tracer', 'volume']),
                'ops': [{'op': rng.choice(['run', 'run', 'restart', 'same']), 'n': rng.randint(1, 5)} for _ in range(rng.randint(1, 3))]}
    if rng.random() < (0.2 if tier == 'quick' else 0.3):
        ts = rng.choice(SOLVER)
        n = rng.randint(2, 6)
        # at rest, but round-off grows where an explicit scheme is unstable
        dt = rng.choice([1.0, 0.5, 2.0] if ts in ('SSPRK33', 'ForwardEuler') else [1.0, 0.5, 10.0] if ts == 'SSPIMEX' else [1.0, 10.0, 50.0])
        tracers = rng.choice([0, 0, 0, 1, 2]) if ts in ('CrankNicolson', 'SSPRK33', 'BackwardEuler', 'DIRK22') else 0
        return {'mode': 'solver', 'ts': ts, 'dt': dt, 'forcing': forc, 'theta': rng.choice([0.5, 0.5, 1.0, 0.75]),
                'tracers': tracers, 'picard': rng.choice([1, 2, 3]) if ts == 'CrankNicolson' else 1,
                'ops': [{'op': rng.choice(['run', 'run', 'restart', 'abandon']), 'n': rng.randint(1, n)} for _ in range(rng.randint(1, 4))],
                'semi': rng.random() < 0.3}
    ts = rng.choice(DIRECT)
    ops = []
    for _ in range(rng.randint(3, 14)):
        op = rng.choice(['advance']*6 + ['set_dt', 'init', 'perturb', 'forcing', 'noforce', 'picard'])
        d = {'op': op}
        if op == 'set_dt':
            d['dt'] = rng.choice([0.1, 0.25, 0.3, 0.02, 0.5])
        if op == 'advance':
            d['n'] = rng.randint(1, 3)
        if op == 'picard':
            d['n'] = rng.randint(1, 3)
        if op == 'perturb':
            d['x'] = rng.uniform(-0.5, 0.5)
        if op == 'forcing':
            d['f'] = {'kind': rng.choice(['const', 'lin', 'cos', 'step']), 'a': rng.uniform(-1, 1), 'b': rng.uniform(-1, 1), 'w': rng.uniform(0.1, 3)}
        ops.append(d)
    return {'mode': 'direct', 'ts': ts, 'dt': rng.choice([0.1, 0.25, 0.3]), 't0': rng.choice([0.0, 0.0, 7.5, 1000.0]), 'forcing': forc,
            'theta': rng.choice([0.5, 0.5, 1.0, 0.6]), 'semi': rng.random() < 0.4,
            'mu': rng.choice([0, 0.3, 0.7]) if ts in UFORM + ('CrankNicolson', 'ForwardEuler', 'SSPRK33') else 0,
            'lam': rng.choice([0.0, 1.0, 4.0]), 'seed': rng.randint(0, 10**6), 'ops': ops}


def shrink(sc):
    import copy
    for key, val in (('mu', 0), ('semi', False), ('theta', 0.5), ('t0', 0.0), ('lam', 0.0), ('tracers', 0), ('picard', 1)):
        if key in sc and sc[key] != val:
            c = copy.deepcopy(sc)
            c[key] = val
            yield c


def valid(sc):
    return bool(sc['ops'])


def fun(p):
    a, b, w = p['a'], p['b'], p['w']
    return {'const': lambda t: a, 'lin': lambda t: a + b*(t % 64)/10, 'quad': lambda t: a + b*(t % 64)/10 - 0.3*((t % 64)/10)**2,
            'cos': lambda t: a + b*np.cos(w*t), 'step': lambda t: a if (t*w) % 2 < 1 else b}[p['kind']]


# --- integrators driven directly -------------------------------------------

_world = {}


def base():
    if not _world:
        import thetis as th
        from thetis.utility import compute_boundary_length
        mesh = th.UnitSquareMesh(2, 2)
        mesh.boundary_len = compute_boundary_length(mesh)
        _world['V'] = th.FunctionSpace(mesh, 'DG', 0)
        from thetis.equation import Term, Equation

        class Decay(Term):
            def residual(self, solution, solution_old, fields, fields_old, bnd_conditions):
                return -th.inner(fields_old['lam']*solution, self.test)*th.dx

        class Quad(Term):
            def residual(self, solution, solution_old, fields, fields_old, bnd_conditions):
                return -th.inner(fields_old['mu']*solution*abs(solution_old), self.test)*th.dx

        class Source(Term):
            def residual(self, solution, solution_old, fields, fields_old, bnd_conditions):
                return th.inner(fields_old['src'], self.test)*th.dx
        _world['terms'] = (Decay, Quad, Source)
        _world['Equation'] = Equation
    return _world


def reference(sc, th_, u, dt, t, f, g, lam, mu, fold):
    """One step of the published scheme for u' = -lam u - mu u|u| + g f(t), nodewise."""
    ts = sc['ts']
    semi = sc['semi']

    def implicit(w, adt, un, src):
        # U = w + adt*(-lam U - mu U |U_nl| + src)
        if semi:
            return (w + adt*src)/(1 + adt*(lam + mu*np.abs(un)))
        U = np.array(un, copy=True)
        for _ in range(60):
            F = U - w - adt*(-lam*U - mu*U*np.abs(U) + src)
            U = U - F/(1 + adt*(lam + 2*mu*np.abs(U)))
        return U
    if ts == 'ForwardEuler':
        return u + dt*(-lam*u - mu*u*np.abs(u) + fold)
    if ts == 'CrankNicolson':
        th = sc['theta']
        w = u + dt*(1 - th)*(-lam*u - mu*u*np.abs(u) + fold)
        return implicit(w, dt*th, u, g*f(t + dt))
    if ts in IMEX:
        (ai, bi, ci), (ae, be, ce) = TAB[IMEX[ts][0]], TAB[IMEX[ts][1]]
        ki, ke = [], []
        for s in range(3):
            w = u + dt*sum((ae[s][j]*ke[j] for j in range(s)), 0*u) + dt*sum((ai[s][j]*ki[j] for j in range(s)), 0*u)
            k = -lam*w/(1 + dt*ai[s][s]*lam)
            ki.append(k)
            ke.append(g*f(t + ce[s]*dt))
        return u + dt*sum(be[j]*ke[j] + bi[j]*ki[j] for j in range(3))
    a, b, c = TAB[ts]
    k = []
    for s in range(len(b)):
        w = u + dt*sum((a[s][j]*k[j] for j in range(s)), 0*u)
        src = g*f(t + c[s]*dt)
        if a[s][s] == 0:
            k.append(-lam*w - mu*w*np.abs(w) + src)
        else:
            U = implicit(w, dt*a[s][s], u, src)
            k.append((U - w)/(dt*a[s][s]))
    return u + dt*sum(b[j]*k[j] for j in range(len(b)))


def run(sc, ctx):
    seams.use(None)
    if sc['mode'] == 'solver':
        return run_solver(sc, ctx)
    if sc['mode'] == 'solver3d':
        return run_solver3d(sc, ctx)
    import thetis as th
    from thetis import rungekutta, timeintegrator, implicitexplicit
    from thetis import options as topt
    B = base()
    V = B['V']
    rs = np.random.RandomState(sc['seed'])
    n = V.dof_dset.size
    u = th.Function(V)
    src = th.Function(V)
    u.dat.data[:] = rs.uniform(0.2, 1.5, n)
    g = rs.uniform(-1, 1, n)
    lam = sc['lam']*rs.uniform(0.2, 1, n)
    mu = sc['mu']*rs.uniform(0.2, 1, n)
    lamf, muf = th.Function(V), th.Function(V)
    lamf.dat.data[:] = lam
    muf.dat.data[:] = mu
    eq = B['Equation'](V)
    D, Q, S = (T(V) for T in B['terms'])
    eq.add_term(D, 'implicit')
    if sc['mu']:
        eq.add_term(Q, 'implicit')
    eq.add_term(S, 'source')
    name = sc['ts']
    cls = getattr(implicitexplicit, name) if name in IMEX else getattr(timeintegrator, name) if name in THETA else getattr(rungekutta, name)
    if name == 'CrankNicolson':
        o = topt.CrankNicolsonSWETimeStepperOptions2d()
        o.implicitness_theta = sc['theta']
        o.use_semi_implicit_linearization = sc['semi']
    elif name in ('ForwardEuler', 'SSPRK33') or name.startswith('ERK'):
        o = topt.ExplicitSWETimeStepperOptions2d()
    else:
        o = topt.SemiImplicitSWETimeStepperOptions2d()
        o.use_semi_implicit_linearization = sc['semi']
    o.solver_parameters = {'ksp_type': 'preonly', 'pc_type': 'bjacobi', 'sub_pc_type': 'ilu', 'snes_rtol': 1e-12, 'snes_atol': 1e-14}
    fields = {'src': src, 'lam': lamf, 'mu': muf}
    if name in ('DIRK33', 'DIRK43', 'DIRK22', 'DIRK23'):
        o.use_semi_implicit_linearization = False
    ti = cls(eq, u, fields, sc['dt'], o, {})
    f = fun(sc['forcing'])
    t, dt = sc['t0'], sc['dt']
    calls = []

    def upd(tt):
        calls.append(tt)
        src.dat.data[:] = g*f(float(tt))
    upd(t)
    ti.initialize(u)
    fold = g*f(t)            # what the integrator saw last
    x = np.array(u.dat.data_ro, copy=True)
    hist = 0
    for op in sc['ops']:
        k = op['op']
        if k == 'set_dt':
            dt = op['dt']
            ti.set_dt(dt)
            ctx.fault('timestep_change')
        elif k == 'forcing':
            f = fun(op['f'])
            ctx.fault('forcing_change')
        elif k == 'init':
            upd(t)
            fold = g*f(t)
            ti.initialize(u)
            ctx.fault('reinitialised')
        elif k == 'perturb':
            u.dat.data[:] += op['x']*g
            x = np.array(u.dat.data_ro, copy=True)
            if name in NEEDS_INIT:
                ti.initialize(u)
            ctx.fault('state_changed_between_steps')
        elif k in ('advance', 'noforce', 'picard'):
            for _ in range(op.get('n', 1) if k == 'advance' else 1):
                del calls[:]
                before = np.array(src.dat.data_ro, copy=True)
                if k == 'noforce':
                    cur = before
                    ti.advance(t)
                    x = reference({**sc}, th, x, dt, 0.0, lambda s: 1.0, cur, lam, mu, fold)
                    fold = cur
                else:
                    if k == 'picard' and name == 'CrankNicolson':
                        p = op['n']
                        for i in range(p):
                            ti.advance_picard(t, update_forcings=upd, update_lagged=i == 0, update_fields=i == p - 1)
                    else:
                        ti.advance(t, update_forcings=upd)
                    x = reference(sc, th, x, dt, t, f, g, lam, mu, fold)
                    fold = np.array(src.dat.data_ro, copy=True)
                    lo, hi = t - 1e-9*max(1, abs(t)), t + dt + 1e-9*max(1, abs(t))
                    if not calls or min(calls) < lo or max(calls) > hi:
                        raise Violation('forcing-time', f'{name}: step from t={t} with dt={dt} asked for forcings at {calls}', sig=name)
                    if name in THETA:
                        fold = g*f(t + dt)
                t = t + dt
                hist += 1
                got = np.array(u.dat.data_ro)
                d = float(np.abs(got - x).max())
                if not d <= 3e-7*max(1.0, float(np.abs(x).max())):
                    raise Violation('step', f'{name}: after step {hist} to t={t} (dt={dt}) the solution is off the scheme by {d:.3e}', sig=name)
                x = got.copy()
                ctx.sim_time += dt
                ctx.count('steps')
        ctx.ev(k, round(float(t), 9), float(np.round(x.sum(), 8)))
    ctx.nontrivial = hist > 1


# --- through the 2D solver --------------------------------------------------

def weights(sc):
    """Forcing instants and weights of one step, per published scheme; CN/FE also use the previous forcing."""
    ts = {'BackwardEuler': 'BackwardEulerUForm', 'DIRK22': 'DIRK22UForm', 'DIRK33': 'DIRK33UForm', 'SSPIMEX': 'ERKLPUM2'}.get(sc['ts'], sc['ts'])
    if ts == 'CrankNicolson':
        return [(0, 1 - sc['theta']), (1, sc['theta'])]
    if ts == 'ForwardEuler':
        return [(0, 1.0)]
    a, b, c = TAB[ts]
    return list(zip(c, b))


def run_solver(sc, ctx):
    W = life.World.get()
    f = fun(sc['forcing'])
    amp = 0.1/sc['dt']      # elevation changes by decimetres a step
    wts = weights(sc)
    labels = [f'c{k}_2d' for k in range(sc['tracers'])]

    class M(life.Model2D):
        def build(self, outdir, mesh2d):
            import thetis as th
            s = super().build(outdir, mesh2d)
            o = s.options
            P1 = th.get_functionspace(mesh2d, 'CG', 1)
            self.vs = th.Function(P1)
            o.volume_source_2d = self.vs
            if hasattr(o.swe_timestepper_options, 'implicitness_theta'):
                o.swe_timestepper_options.implicitness_theta = sc['theta']
            if hasattr(o.swe_timestepper_options, 'use_semi_implicit_linearization'):
                o.swe_timestepper_options.use_semi_implicit_linearization = sc['semi']
            # residuals carry the cell area (about 5e5 m2)
            tight = {'ksp_rtol': 1e-9, 'ksp_atol': 1e-7, 'snes_rtol': 1e-8, 'ksp_max_it': 1000, 'snes_atol': 1e-6}
            o.swe_timestepper_options.solver_parameters.update(tight)
            self.ts = []
            for k, lab in enumerate(labels):
                q = th.Function(P1)
                self.ts.append(q)
                o.add_tracer_2d(lab, lab, f'Tr{k}', source=q)
            if labels:
                o.tracer_timestepper_type = sc['ts']
                if hasattr(o.tracer_timestepper_options, 'implicitness_theta'):
                    o.tracer_timestepper_options.implicitness_theta = sc['theta']
                if hasattr(o.tracer_timestepper_options, 'use_automatic_timestep'):
                    o.tracer_timestepper_options.use_automatic_timestep = False
                o.tracer_timestepper_options.solver_parameters.update(tight)
                o.use_limiter_for_tracers = False
                o.tracer_picard_iterations = sc['picard']
            return s

        def force(self, t):
            v = amp*f(float(t)/sc['dt'])
            self.vs.assign(v)
            for k, q in enumerate(self.ts):
                q.assign((k + 2)*v)

        def initial(self, s):
            import thetis as th
            s.assign_initial_conditions(elev=th.Constant(0.3), **{lab: th.Constant(1.0 + k) for k, lab in enumerate(labels)})
    dt = sc['dt']
    cfg = {'ts': sc['ts'], 'dt': dt, 'texp': dt, 'tend': dt, 'force': 'none', 'vtk': [], 'hdf5': ['elev_2d', 'uv_2d']}
    m = M(W, ctx, cfg)
    out = os.path.join(ctx.scratch, 'o')
    eta = [0.3]

    def rate(n):
        return sum(w*amp*f(n + c) for c, w in wts)
    resume = None
    for op in sc['ops']:
        n0 = resume['i'] if resume else 0
        cfg['tend'] = (n0 + op['n'])*dt
        kill = {'kind': 'yield', 'at': op['n'] + 1, 'hard': False} if op['op'] == 'abandon' else None
        trc = m.life(out, resume=resume, kill=kill)
        if trc.outcome == 'error':
            raise Violation('run-failed', f'{trc.error!r}') from trc.error
        for (t, it, ie, st) in trc.steps:
            n = int(round(float(t)/dt))
            while len(eta) <= n:
                eta.append(eta[-1] + dt*rate(len(eta) - 1))
            d = float(np.abs(st['elev_2d'] - eta[n]).max())
            if not d <= 1e-6*max(1, abs(eta[n]), 0.1):
                raise Violation('step', f"{sc['ts']}: elevation at t={t} is off the scheme by {d:.3e} (history {sc['ops']})", sig='solver-' + sc['ts'])
            ctx.nontrivial = True
        for k, lab in enumerate(labels):
            n = n0 + len(trc.steps)
            # tracers are not part of the stored state: integrate this life only
            start = 0.0 if resume else 1.0 + k
            want = start + sum((k + 2)*dt*rate(j) for j in range(n0, n))
            got = np.array(m.solver.fields[lab].dat.data_ro)
            d = float(np.abs(got - want).max())
            if not d <= 2e-6*max(1, abs(want), 0.1):
                raise Violation('tracer-step', f"{sc['ts']}: {lab} at step {n} is off the scheme by {d:.3e} (life from step {n0})", sig='solver-' + sc['ts'])
        # which export to continue from
        last = max(int(os.path.basename(x).split('_')[-1][:-3]) for x in __import__('glob').glob(os.path.join(out, 'hdf5', 'Elevation2d_*.h5')))
        if op['op'] == 'restart' and last > 0:
            last -= 1
        resume = {'i': last, 't_force': last*dt}
        del eta[last + 1:]
        ctx.fault('restart')


# --- through the 3D solver --------------------------------------------------

def run_solver3d(sc, ctx):
    """Water at rest in a closed basin: uniform tracers follow their sources, the elevation the volume source."""
    W = life.World.get()
    f = fun(sc['forcing'])
    dt = sc['dt']
    amp = 0.05/dt
    tracer = sc['what'] == 'tracer'
    calls = []

    class M(life.Model3D):
        def build(self, outdir, mesh2d):
            import thetis as th
            s = super().build(outdir, mesh2d)
            o = s.options
            self.vs = th.Function(th.get_functionspace(mesh2d, 'CG', 1))
            o.volume_source_2d = self.vs
            self.ss, self.qs = th.Constant(0.0), th.Constant(0.0)
            o.salinity_source_3d = self.ss
            o.temperature_source_3d = self.qs
            o.use_baroclinic_formulation = False
            o.use_limiter_for_tracers = sc['lim']
            if sc['diff']:
                o.use_implicit_vertical_diffusion = True
                o.vertical_diffusivity = th.Constant(1e-3)
                o.vertical_viscosity = th.Constant(1e-3)
            tight = {'ksp_rtol': 1e-9, 'ksp_atol': 1e-7, 'snes_rtol': 1e-8, 'ksp_max_it': 1000, 'snes_atol': 1e-6}
            o.timestepper_options.swe_options.solver_parameters.update(tight)
            return s

        def force(self, t):
            calls.append(float(t))
            if not tracer:
                self.vs.assign(amp*f(float(t)/dt))

        def force3(self, t):
            calls.append(float(t))
            if tracer:
                self.ss.assign(amp*f(float(t)/dt))
                self.qs.assign(-2*amp*f(float(t)/dt))

        def iterate(self, s, upd, ack):
            s.iterate(update_forcings=upd, update_forcings3d=self.force3, export_func=ack)

        def initial(self, s):
            import thetis as th
            s.initialize()
            self.force3(0.0)
            kw = {'temp': th.Constant(8.0)} if sc['temp'] else {}
            s.assign_initial_conditions(elev=th.Constant(0.3), salt=th.Constant(4.0), **kw)
    cfg = {'ts': '3d', 'ts3d': sc['ts3d'], 'dt': dt, 'dt2d': dt, 'texp': dt, 'tend': dt, 'vtk': [], 'salt': True, 'temp': sc['temp'], 'ale': sc['ale']}
    m = M(W, ctx, cfg)
    # 2D mode and tracers have schemes of their own
    a2, b2, c2 = TAB['DIRK22' if sc['ts3d'] == 'LeapFrog' else 'ESDIRKTrapezoid']
    w2 = list(zip(c2, b2))
    w3 = [(0.5, 1.0)] if sc['ts3d'] == 'LeapFrog' else [(0, 0.5), (1, 0.5)]

    def rate(wts, n):
        return dt*sum(w*amp*f(n + c) for c, w in wts)

    def want(n):
        e = {'elev_2d': 0.3, 'salt_3d': 4.0, 'temp_3d': 8.0}
        for j in range(n):
            if tracer:
                e['salt_3d'] += rate(w3, j)
                e['temp_3d'] -= 2*rate(w3, j)
            else:
                e['elev_2d'] += rate(w2, j)
        return e
    names = ['elev_2d', 'salt_3d'] + (['temp_3d'] if sc['temp'] else [])
    out = os.path.join(ctx.scratch, 'o')
    resume = None
    n0 = 0

    def judge(t, st, what):
        n = int(round(float(t)/dt))
        e = want(n)
        for k in names:
            d = float(np.abs(st[k] - e[k]).max())
            if not d <= 2e-6*max(1, abs(e[k])):
                raise Violation('step', f"{sc['ts3d']}: {k} at t={t} ({what}) is off the scheme by {d:.3e}", sig='solver3d-' + sc['ts3d'])
    for op in sc['ops']:
        n1 = n0 + op['n']
        cfg['tend'] = n1*dt
        del calls[:]
        if op['op'] == 'same' and resume is not None and resume['i'] == int(round(float(m.solver.simulation_time)/dt)):
            # the same solver goes on
            s = m.solver
            s.options.simulation_end_time = n1*dt
            s.export_initial_state = False       # it is on disk already
            s.iterate(update_forcings=m.force, update_forcings3d=m.force3)
            judge(s.simulation_time, life.field_arrays(s, names), 'same solver continued')
            ctx.fault('continued')
        else:
            if resume is not None:
                n0 = resume['i']
                cfg['tend'] = max(n1, n0 + 1)*dt
                n1 = max(n1, n0 + 1)
            trc = m.life(out, resume=resume)
            if trc.outcome == 'error':
                raise Violation('run-failed', f'{trc.error!r}') from trc.error
            for (t, it, ie, st) in trc.steps:
                judge(t, st, f'life from step {n0}')
            ctx.fault('restart' if resume else 'start')
            if resume is not None:
                ctx.nontrivial = True
        lo, hi = n0*dt - 1e-9, n1*dt + 1e-6*dt
        if not calls or min(calls) < lo or max(calls) > hi:
            raise Violation('forcing-time', f"{sc['ts3d']}: steps from t={n0*dt} to {n1*dt} asked for forcings at {calls}", sig='solver3d-' + sc['ts3d'])
        n0 = n1
        last = n1 - 1 if op['op'] == 'restart' and n1 > 1 else n1
        resume = {'i': last, 't_force': last*dt}
        if op['op'] == 'restart':
            n0 = last
