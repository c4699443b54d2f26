"""
S15  Conservation along any history: in a closed basin volume and tracer mass stay, a uniform tracer stays uniform,
     and the 3D model stays consistent with its 2D mode - through every step, step-size change, pause, failure,
     kill and restart.
"""
import os

import numpy as np

from .. import life, seams
from ..core import SimAbort, SimCrash, Violation

TOL_VOL = 3e-9        # relative to the volume of the basin
TOL_WD = 1e-7          # wetting and drying: iterative Newton
TOL_MASS = 1e-8
TOL_CONST = 1e-8
TOL_3D = 1e-7


PARAMS = [('manning_drag_coefficient', 0.02), ('coriolis_frequency', 1e-4), ('use_nonlinear_equations', False), ('wind_stress', 0.2),
          ('horizontal_viscosity', 5.0), ('linear_drag_coefficient', 1e-4), ('quadratic_drag_coefficient', 2.5e-3), ('atmospheric_pressure', 500.0),
          ('momentum_source_2d', 1e-5), ('use_lax_friedrichs_tracer', False), ('use_lax_friedrichs_velocity', False)]


def gen2(rng, e):
    ts = rng.choice(['CrankNicolson', 'CrankNicolson', 'BackwardEuler', 'DIRK22', 'DIRK33', 'SSPRK33', 'SSPRK33', 'ForwardEuler', 'PressureProjectionPicard', 'SSPIMEX'])
    expl = ts in ('SSPRK33', 'ForwardEuler', 'SSPIMEX')
    dt = rng.choice([1.0, 2.5]) if expl else rng.choice([10.0, 20.0, 60.0])
    n = rng.randint(3, 12)
    cfg = {'kind': '2d', 'ts': ts, 'family': 'dg-cg' if ts == 'PressureProjectionPicard' else rng.choice(['dg-dg', 'dg-dg', 'dg-cg', 'rt-dg']),
           'dt': dt, 'texp': dt*rng.choice([1, 2, 3]), 'tend': n*dt, 'force': rng.choice(['none', 'vs']), 'amp': rng.choice([0.1, 0.5, 2.0]),
           'params': {}, 'trs': [], 'lim': False, 'picard': 1}
    if ts not in ('SSPIMEX', 'PressureProjectionPicard'):
        for lab in rng.choice([[], ['a_2d'], ['a_2d'], ['a_2d', 'b_2d']]):
            cfg['trs'].append({'lab': lab, 'cons': rng.random() < 0.5, 'const': rng.random() < 0.5, 'diff': rng.choice([None, None, 5.0])})
        if cfg['trs']:
            cfg['lim'] = rng.random() < 0.4
            if ts == 'CrankNicolson':
                cfg['picard'] = rng.choice([1, 1, 2])
    if ts != 'PressureProjectionPicard':
        for key, val in rng.sample(PARAMS, rng.choice([0, 0, 0, 1, 1, 2])):
            if key == 'quadratic_drag_coefficient' and 'manning_drag_coefficient' in cfg['params'] or key == 'manning_drag_coefficient' and 'quadratic_drag_coefficient' in cfg['params']:
                continue
            if key == 'horizontal_viscosity' and (expl or cfg['family'] == 'dg-cg'):
                continue
            cfg['params'][key] = val
    if ts in ('CrankNicolson', 'BackwardEuler', 'DIRK22') and rng.random() < 0.2 and not cfg['params']:
        cfg['wd'] = True
        cfg['dt'], cfg['texp'], cfg['tend'] = 10.0, 10.0*rng.choice([1, 2]), 10.0*n
        cfg['trs'] = []
        cfg['amp'] = 0.5
    return cfg


def gen3(rng):
    dt = rng.choice([10.0, 20.0])
    n = rng.randint(3, 8)
    ts3d = rng.choice(['SSPRK22', 'SSPRK22', 'LeapFrog'])
    cfg = {'kind': '3d', 'ts': '3d', 'ts3d': ts3d, 'dt': dt, 'dt2d': dt if ts3d == 'LeapFrog' else dt/rng.choice([1, 2]), 'texp': dt*rng.choice([1, 2]), 'tend': n*dt,
           'salt': True, 'temp': rng.random() < 0.3, 'ale': ts3d == 'LeapFrog' or rng.random() < 0.8, 'amp': rng.choice([0.2, 0.5, 1.5]), 'const': rng.random() < 0.5,
           'options': {}, 'vtk': []}
    cfg['lim'] = rng.random() < 0.6
    for key in ('horizontal_diffusivity', 'vertical_diffusivity', 'horizontal_viscosity', 'coriolis_frequency', 'use_bottom_friction', 'use_baroclinic_formulation'):
        if rng.random() < 0.15:
            cfg['options'][key] = True
    return cfg


def gen(rng, i, tier):
    # the configuration stays for a few runs, which reuse its kernels
    erng, e = rng.epoch(4)
    cfg = gen3(erng) if e % 4 == 3 else gen2(erng, e)
    cfg['periodic'] = cfg['kind'] == '2d' and not cfg.get('wd') and erng.random() < 0.5
    if not cfg['periodic']:
        for t in cfg.get('trs', []):
            t['cons'] = False
    n = rng.randint(3, 12 if cfg['kind'] == '2d' else 8)
    cfg['texp'], cfg['tend'] = cfg['dt']*rng.choice([1, 1, 2, 2, 3]), n*cfg['dt']
    if not cfg.get('wd'):
        cfg['amp'] = rng.choice([0.1, 0.5, 2.0] if cfg['kind'] == '2d' else [0.2, 0.5, 1.5])
    lives = []
    n = int(round(cfg['tend']/cfg['dt']))
    for _ in range(rng.choice([0, 1, 1, 2])):
        kind = rng.choice(['force', 'ack', 'disk', 'yield'])
        if kind == 'disk':
            kill = {'kind': 'disk', 'plan': [{'at': rng.randint(0, 40), 'kind': rng.choice(['crash', 'torn', 'error', 'error']), 'match': rng.choice(['', 'ck']), 'frac': rng.random(), 'errno': 'EIO'}]}
        else:
            kill = {'kind': kind, 'at': rng.randint(1, 2*n if kind == 'force' else n)}
        lives.append({'kill': kill, 'back': rng.choice([0, 0, 1]), 'dtf': rng.choice([1, 1, 1, 0.5]), 'how': rng.choice(['restart', 'restart', 'same'])})
    return {'cfg': cfg, 'lives': lives}


def valid(sc):
    return True


def shrink(sc):
    import copy
    for key, val in (('params', {}), ('trs', []), ('lim', False), ('force', 'none'), ('options', {}), ('temp', False), ('picard', 1), ('wd', False)):
        if sc['cfg'].get(key, val) != val:
            c = copy.deepcopy(sc)
            c['cfg'][key] = val
            yield c
    n = int(round(sc['cfg']['tend']/sc['cfg']['dt']))
    for k in (n//2, n - 1):
        if 1 <= k < n:
            c = copy.deepcopy(sc)
            c['cfg']['tend'] = k*sc['cfg']['dt']
            yield c
    for j, lf in enumerate(sc['lives']):
        for key, val in (('back', 0), ('dtf', 1), ('how', 'restart')):
            if lf[key] != val:
                c = copy.deepcopy(sc)
                c['lives'][j][key] = val
                yield c


class M2(life.Model2D):
    def __init__(self, world, ctx, cfg, disk=None):
        super().__init__(world, ctx, cfg, disk)
        labs = [t['lab'] for t in cfg['trs']]
        self.state_fields = tuple(life.Model2D.state_fields) + tuple(labs)
        self.export_names = dict(life.Model2D.export_names, **{x: 'Tracer_' + x[0] for x in labs})

    def build(self, outdir, mesh2d):
        import thetis as th
        c = self.cfg
        s = super().build(outdir, mesh2d)
        o = s.options
        x, y = th.SpatialCoordinate(mesh2d)
        if c.get('wd'):
            s.fields.bathymetry_2d.interpolate(1.5 - 3.0*x/3e3)
            o.use_wetting_and_drying = True
            o.use_automatic_wetting_and_drying_alpha = False
            o.wetting_and_drying_alpha = th.Constant(0.5)
            o.manning_drag_coefficient = th.Constant(0.03)
        for k, v in c['params'].items():
            if k == 'wind_stress':
                P1v = th.get_functionspace(mesh2d, 'CG', 1, vector=True)
                o.wind_stress = th.Function(P1v).assign(th.Constant((v, -v)))
            elif k == 'momentum_source_2d':
                o.momentum_source_2d = th.as_vector((th.Constant(v), th.Constant(-v)))
            elif k == 'atmospheric_pressure':
                P1 = th.get_functionspace(mesh2d, 'CG', 1)
                o.atmospheric_pressure = th.Function(P1).interpolate(v*th.cos(2*th.pi*x/3e3))
            elif isinstance(v, bool):
                setattr(o, k, v)
            else:
                setattr(o, k, th.Constant(v))
        if c.get('wd') or 'manning_drag_coefficient' in c['params'] or 'quadratic_drag_coefficient' in c['params']:
            # the Jacobian of the quadratic drag of water at rest is not finite
            o.norm_smoother = th.Constant(1e-3)
        if c['trs']:
            o.tracer_timestepper_type = c['ts']
            if hasattr(o.tracer_timestepper_options, 'use_automatic_timestep'):
                o.tracer_timestepper_options.use_automatic_timestep = False
            o.use_limiter_for_tracers = c['lim']
            o.tracer_picard_iterations = c['picard']
            for t in c['trs']:
                kw = {'use_conservative_form': t['cons']}
                if t['diff']:
                    kw['diffusivity'] = th.Constant(t['diff'])
                o.add_tracer_2d(t['lab'], t['lab'], self.export_names[t['lab']], **kw)
            o.fields_to_export_hdf5 = list(self.state_fields)
        return s

    def force(self, t):
        if self.src is not None:
            self.src.assign(1e-3*self.shape)

    def initial(self, s):
        import thetis as th
        c = self.cfg
        x, y = th.SpatialCoordinate(s.mesh2d)
        amp = th.Constant(c['amp'])
        elev = amp*(th.cos((2 if c['periodic'] else 1)*th.pi*x/3e3) + 0.4*th.cos(2*th.pi*y/2e3))
        if c.get('wd'):
            elev = amp*th.cos(th.pi*x/3e3)
        kw = {}
        for n, t in enumerate(c['trs']):
            v = th.Constant(4.5) if t['const'] else 2.0 + th.sign(x - 1.4e3) + 0.3*y/2e3
            kw[t['lab']] = v*(s.fields.bathymetry_2d + elev) if t['cons'] else v
        s.assign_initial_conditions(elev=elev, **kw)

    def measure(self, s, t=None):
        """{quantity: (value, scale, tolerance)}; each value must stay what it was at the start."""
        import thetis as th
        c = self.cfg
        elev = s.fields.elev_2d
        h = s.fields.bathymetry_2d + elev
        if c.get('wd'):
            h = s.depth.get_total_depth(elev)
        r = {}
        # the same quadrature points as the discrete equation: the displaced depth is not polynomial
        v = th.assemble(h*(th.dx(degree=2*elev.function_space().ufl_element().degree() + 1) if c.get('wd') else th.dx))
        if self.src is not None:
            v -= float(s.simulation_time if t is None else t)*th.assemble(self.src*th.dx)
        r['volume'] = (v, abs(v), TOL_WD if c.get('wd') else TOL_VOL)
        for t in c['trs']:
            q = s.fields[t['lab']]
            if t['cons'] and c['periodic']:
                m = th.assemble(q*th.dx)
                r['mass of ' + t['lab']] = (m, abs(m), TOL_MASS)
            elif t['const'] and not t['cons']:
                a = q.dat.data_ro
                r['least ' + t['lab']] = (float(a.min()), 4.5, TOL_CONST)
                r['largest ' + t['lab']] = (float(a.max()), 4.5, TOL_CONST)
        return r


class M3(life.Model3D):
    def build(self, outdir, mesh2d):
        import thetis as th
        c = self.cfg
        opts = dict(c['options'])
        for k, v in (('horizontal_diffusivity', 2.0), ('vertical_diffusivity', 1e-3), ('horizontal_viscosity', 1.0), ('coriolis_frequency', 1e-4)):
            if k in opts:
                opts[k] = th.Constant(v)
        keep, self.cfg = self.cfg, dict(c, options=opts)
        s = super().build(outdir, mesh2d)
        self.cfg = keep
        s.options.use_limiter_for_tracers = c['lim']
        if 'use_bottom_friction' in opts:
            s.options.quadratic_drag_coefficient = th.Constant(2.5e-3)
        if 'vertical_diffusivity' in opts:
            s.options.use_implicit_vertical_diffusion = True
        return s

    def iterate(self, s, upd, ack):
        s.iterate(update_forcings=upd, update_forcings3d=lambda t: None, export_func=ack)

    def initial(self, s):
        import thetis as th
        s.initialize()
        c = self.cfg
        x, y = th.SpatialCoordinate(s.mesh2d)
        X = th.SpatialCoordinate(s.mesh)
        kw = {'salt': th.Constant(4.5) if c['const'] else 10 + th.sign(X[0] - 1.4e3) + 0.1*X[2]}
        if c['temp']:
            kw['temp'] = 8 + X[1]/2e3 - 0.05*X[2]
        s.assign_initial_conditions(elev=th.Constant(c['amp'])*(th.cos((2 if c['periodic'] else 1)*th.pi*x/3e3) + 0.4*th.cos(2*th.pi*y/2e3)), **kw)

    def measure(self, s, t=None):
        import thetis as th
        c = self.cfg
        r = {}
        v2 = th.assemble((s.fields.elev_2d + s.fields.bathymetry_2d)*th.dx)
        r['volume (2D)'] = (v2, abs(v2), TOL_VOL)
        v3 = th.assemble(th.Constant(1.0)*th.dx(domain=s.mesh))
        r['volume (3D)'] = (v3, abs(v3), TOL_VOL)
        if c['const']:
            a = s.fields.salt_3d.dat.data_ro
            r['least salt_3d'] = (float(a.min()), 4.5, TOL_CONST)
            r['largest salt_3d'] = (float(a.max()), 4.5, TOL_CONST)
        return r


def run(sc, ctx):
    from firedrake.exceptions import ConvergenceError
    cfg = sc['cfg']
    # walls let tracers leak a little (the normal velocity vanishes there only weakly): mass is judged on a periodic domain
    W = life.World.get(4, 3, periodic=True) if cfg.get('periodic') else life.World.get()
    disk = life.new_disk(ctx)
    base = {}
    worst = {}

    def check(m, s, where):
        for k, (v, scale, tol) in m.measure(s).items():
            if k not in base:
                base[k] = v
            d = abs(v - base[k])/scale
            worst[k] = max(worst.get(k, 0.0), d)
            if not d <= tol:
                raise Violation('conservation', f'{k} is {v!r} {where} (t={float(s.simulation_time)}), at the start it was {base[k]!r}')
    try:
        from .s01 import complete
        out = os.path.join(disk.root, 'out')
        lives = list(sc['lives'])
        s = None
        resume = None
        scale = 1.0
        for guard in range(10):
            lf = lives.pop(0) if lives else None
            kill = lf['kill'] if lf else {}
            how = 'fresh'
            seen = {'force': 0, 'ack': 0, 'yield': 0}
            end = None
            t_start = 0.0
            if s is None:
                m = (M3 if cfg['kind'] == '3d' else M2)(W, ctx, dict(cfg, dt=cfg['dt']*scale, dt2d=cfg.get('dt2d', cfg['dt'])*scale), disk)

            def die(why):
                ctx.fault('kill_' + why)
                disk.crash(why)
                raise SimCrash(why)

            def upd(t):
                seen['force'] += 1
                if kill.get('kind') == 'force' and seen['force'] == kill['at']:
                    die('in_forcing')
                m.force(t)

            def ack():
                seen['ack'] += 1
                check(m, s, 'after an export')
                if kill.get('kind') == 'ack' and seen['ack'] == kill['at']:
                    die('after_export')
            try:
                if s is None:
                    life.reset_logging()
                    s = m.build(out, W.mesh)
                    m.force(0.0)
                    if resume is None:
                        m.initial(s)
                        how = 'at the start'
                    else:
                        s.load_state(resume)
                        how = f'after load_state({resume})'
                    check(m, s, how)
                    life.add_recorder(s, lambda: check(m, s, 'after a step'), 'timestep')
                t_start = float(s.simulation_time)
                if kill.get('kind') == 'disk':
                    disk.arm(kill['plan'])
                if kill.get('kind') == 'yield' and cfg['kind'] == '2d':
                    it = s.create_iterator(update_forcings=upd, export_func=ack)
                    for t in it:
                        seen['yield'] += 1
                        if seen['yield'] == kill['at']:
                            ctx.fault('iterator_abandoned')
                            it.close()
                            end = 'stopped'
                            break
                    else:
                        end = 'end'
                else:
                    m.iterate(s, upd, ack)
                    end = 'end'
            except SimCrash:
                end = 'crash'
            except Violation:
                raise
            except ConvergenceError:
                ctx.probe('diverged')
                end = 'diverged'
            except Exception as e:
                if not disk.fired:
                    raise Violation('run-failed', f'{how}: {type(e).__name__}: {e}', sig=type(e).__name__) from e
                end = 'error'
            disk.disarm()
            ctx.sim_time += float(s.simulation_time or 0.0) - t_start
            ctx.ev('life', end, float(s.simulation_time or 0.0), int(s.iteration or 0))
            if end == 'diverged':
                break
            if end == 'end' and not lives:
                break
            if end == 'error' and not lf:
                raise RuntimeError('error without a fault')
            scale = lf['dtf'] if lf else 1.0
            if end in ('error', 'end') and lf and lf['how'] == 'same' and s.simulation_time is not None and not disk.dead:
                # the application goes on with the same solver (an iterator abandoned at its yield has taken a step the clock does not show)
                ctx.probe('same_solver_again')
                ctx.nontrivial = True
                if end == 'end':
                    s.options.simulation_end_time = s.options.simulation_end_time + 2*cfg['dt']
                if cfg['kind'] == '2d' and scale != 1:
                    ctx.probe('step_size_changed')
                    s.options.timestep = cfg['dt']*scale
                    s.dt = cfg['dt']*scale
                    s.timestepper.set_dt(s.dt)
                disk.restart()
                continue
            disk.restart()
            have = sorted(complete(m, out))
            s = None
            resume = have[max(0, len(have) - 1 - lf['back'])] if lf and have else None
            if resume is not None:
                ctx.probe('restarted')
                ctx.nontrivial = True
            else:
                base.clear()
        ctx.worst = worst
    finally:
        disk.disarm()
        seams.use(None)
