"""
S17  Setting a solver up is lazy, independent of the order and granularity of the calls, and survives failures: whatever
     is called explicitly or implicitly, fails (disk error, missing or damaged restart file, bad argument) and is repeated,
     the run that follows is the plain one; misspelt attributes and options are refused throughout.
"""
import os
import shutil

import numpy as np

from .. import life, seams
from ..core import Violation
from .s16 import diagnostics, files

STEPS = ['fs', 'fields', 'eqs', 'ts', 'exp', 'init']


def gen(rng, i, tier):
    # the configuration stays for a few runs, which reuse its kernels
    run, (rng, e) = rng, rng.epoch(6)
    kind = '3d' if e % 10 == 7 else '2d'
    if kind == '3d':
        dt = 50.0
        cfg = {'kind': '3d', 'ts': '3d', 'dt': dt, 'dt2d': dt, 'texp': dt*rng.choice([1, 2]), 'tend': dt*rng.randint(1, 2), 'salt': rng.random() < 0.5,
               'ale': rng.random() < 0.7, 'vtk': rng.choice([[], ['uv_3d']]), 'diag': rng.random() < 0.5, 'tracers': []}
    else:
        ts = rng.choice(['CrankNicolson', 'CrankNicolson', 'DIRK22', 'SSPRK33', 'BackwardEuler'])
        dt = 2.5 if ts == 'SSPRK33' else 50.0
        cfg = {'kind': '2d', 'ts': ts, 'family': 'dg-dg', 'dt': dt, 'texp': dt*rng.choice([1, 2]), 'tend': dt*rng.randint(1, 4),
               'tracers': rng.choice([[], [], ['a_2d'], ['a_2d', 'b_2d']]), 'vtk': rng.choice([[], ['elev_2d'], ['uv_2d', 'elev_2d']]),
               'diag': rng.random() < 0.5, 'force': rng.choice(['none', 'vs'])}
    rng = run
    cfg['texp'], cfg['tend'] = cfg['dt']*rng.choice([1, 2]), cfg['dt']*rng.randint(1, 2 if kind == '3d' else 4)
    ops = []
    pos = 0
    for _ in range(rng.randint(0, 5)):
        if pos < len(STEPS) and rng.random() < 0.6:
            pos = rng.randint(pos, len(STEPS) - 1)
            op = {'op': STEPS[pos]}
            pos += 1
        else:
            op = {'op': rng.choice(['typo', 'option_typo', 'option_value', 'bad_load', 'half_load', 'bad_ic', 'bad_farm', 'callback', 'state'])}
        ops.append(op)
    ops.append({'op': 'ic'})
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append({'op': rng.choice(['typo', 'option_typo', 'bad_load', 'half_load', 'ic', 'init', 'callback', 'state'])})
    for op in ops:
        if op['op'] in STEPS + ['ic', 'bad_load', 'half_load'] and rng.random() < 0.45:
            op['plan'] = [{'at': rng.randint(0, 8), 'kind': 'error', 'match': rng.choice(['', '', 'open', 'mkdir', 'remove', 'write']), 'errno': rng.choice(['ENOSPC', 'EIO', 'EACCES'])}]
            op['retry'] = rng.random() < 0.6
    late = [x for x in ('tend', 'texp', 'dt', 'hdf5') if rng.random() < 0.3]
    return {'cfg': cfg, 'ops': ops, 'stale': rng.random() < 0.5, 'late': late}


def valid(sc):
    order = [STEPS.index(o['op']) for o in sc['ops'] if o['op'] in STEPS]
    return any(o['op'] == 'ic' for o in sc['ops'])


def shrink(sc):
    import copy
    for key, val in (('tracers', []), ('vtk', []), ('diag', False), ('force', 'none'), ('kind', '2d'), ('ts', 'CrankNicolson')):
        if key in sc['cfg'] and sc['cfg'][key] != val and not (key in ('kind', 'ts') and sc['cfg']['kind'] == '3d'):
            c = copy.deepcopy(sc)
            c['cfg'][key] = val
            yield c
    if sc['stale']:
        c = copy.deepcopy(sc)
        c['stale'] = False
        yield c
    for x in sc.get('late', []):
        c = copy.deepcopy(sc)
        c['late'].remove(x)
        yield c


class M2(life.Model2D):
    def build(self, outdir, mesh2d):
        s = super().build(outdir, mesh2d)
        s.options.check_volume_conservation_2d = self.cfg['diag']
        if self.cfg['tracers']:
            s.options.check_tracer_conservation = self.cfg['diag']
        return s


class M3(life.Model3D):
    def build(self, outdir, mesh2d):
        s = super().build(outdir, mesh2d)
        s.options.check_volume_conservation_2d = self.cfg['diag']
        return s


def model(cfg, ctx, W):
    return (M3 if cfg['kind'] == '3d' else M2)(W, ctx, cfg)


def state_names(m, cfg):
    return list(m.state_fields) + cfg['tracers']


def finish(s, m, cfg, rec):
    names = state_names(m, cfg)

    def look():
        rec.append((float(s.simulation_time), int(s.iteration), int(s.i_export), life.field_arrays(s, names)))
    if cfg['kind'] == '3d':
        s.iterate(update_forcings=m.force, update_forcings3d=lambda t: look())
    else:
        for t in s.create_iterator(update_forcings=m.force):
            look()
    look()


def logged(d):
    p = os.path.join(d, 'log')
    return os.path.isfile(p)


def vtk_numbers(d):
    return sorted(f for f in files(d) if f.endswith(('.vtu', '.pvd', '.h5', '.hdf5')))


def run(sc, ctx):
    W = life.World.get()
    cfg = sc['cfg']
    seams.use(None)
    life.reset_logging()
    g = model(cfg, ctx, W)
    gdir = os.path.join(ctx.scratch, 'golden')
    s = g.build(gdir, W.mesh)
    g.force(0.0)
    g.initial(s)
    gold = []
    finish(s, g, cfg, gold)
    gfiles, gdiag = vtk_numbers(gdir), diagnostics(gdir)
    ctx.ev('golden', [r[:3] for r in gold], gfiles)
    life.reset_logging()
    disk = life.new_disk(ctx)
    try:
        simulate(sc, ctx, W, disk, gdir, gold, gfiles, gdiag)
    finally:
        disk.disarm()
        seams.use(None)


def simulate(sc, ctx, W, disk, gdir, gold, gfiles, gdiag):
    cfg = sc['cfg']
    out = os.path.join(disk.root, 'out')
    other = os.path.join(disk.root, 'other')
    seams.use(None)
    if sc['stale']:
        # an earlier run has left its output behind
        shutil.copytree(gdir, out)
    # a restart source that lacks a file
    shutil.copytree(os.path.join(gdir, 'hdf5'), os.path.join(other, 'hdf5'))
    lost = f'{"Elevation2d" if cfg["kind"] == "2d" else "Velocity3d"}_00000.h5'
    os.remove(os.path.join(other, 'hdf5', lost))
    seams.use(disk)
    m = model(cfg, ctx, W)
    s = m.build(out, W.mesh)
    names = state_names(m, cfg)
    # options that get their final value only when they are about to be needed
    late = {}
    attr = {'tend': ('simulation_end_time', 7.0), 'texp': ('simulation_export_time', 3.0), 'dt': ('timestep', 13.0), 'hdf5': ('fields_to_export_hdf5', [])}
    for x in sc.get('late', []):
        if x in ('dt', 'texp') and cfg['kind'] == '3d':  # the 3D time step is derived from both
            continue
        a, wrong = attr[x]
        late[x] = (a, getattr(s.options, a))
        setattr(s.options, a, wrong)

    def settle(*what):
        for x in what:
            if x in late:
                a, v = late.pop(x)
                setattr(s.options, a, v)
                ctx.probe('late_option')
    m.force(0.0)
    have_ic = False
    ncb = [0]
    before = {}

    def do(op):
        k = op['op']
        if k == 'fs':
            s.create_function_spaces()
        elif k == 'fields':
            s.create_fields()
        elif k == 'eqs':
            s.create_equations()
        elif k == 'ts':
            s.create_timestepper()
        elif k == 'exp':
            s.create_exporters()
        elif k == 'init':
            s.initialize()
        elif k == 'ic':
            m.initial(s)
        elif k == 'bad_load':
            s.load_state(97)
        elif k == 'half_load':
            s.load_state(0, outputdir=other)

    def snapshot():
        if not all(n in s.fields for n in names):
            return None
        return life.field_arrays(s, names)

    def done(k):
        """what an explicit call may not repeat: the user would reset what exists"""
        return {'fs': hasattr(s.function_spaces, 'U_2d'), 'fields': 'uv_2d' in s.fields, 'eqs': hasattr(s, 'equations'),
                'ts': hasattr(s, 'timestepper'), 'exp': hasattr(s, 'exporters')}.get(k, False)

    for op in sc['ops']:
        k = op['op']
        ctx.count('setup_calls')
        if k == 'typo':
            refused(s, 'no_such_attribute', 1, (TypeError, AttributeError))
            continue
        if k == 'option_typo':
            refused(s.options, 'simulation_end_tmie', 1.0, (TypeError, AttributeError, Exception))
            continue
        if k == 'option_value':
            old = s.options.timestep
            try:
                s.options.timestep = 'fast'
            except Exception:
                pass
            else:
                raise Violation('option-accepted', "options.timestep = 'fast' was accepted")
            if s.options.timestep != old:
                raise Violation('option-changed', f'a refused value changed options.timestep from {old} to {s.options.timestep}')
            continue
        if k == 'callback':
            ncb[0] += 1
            n = ncb[0]
            life.add_recorder(s, lambda: None, 'export')
            continue
        if k == 'state':
            st = (s.simulation_time, s.iteration, s.i_export)
            if st != (0, 0, 0):
                raise Violation('clock', f'before the run (time, iteration, export) are {st}')
            continue
        if k in STEPS and done(k):
            continue
        if k == 'bad_farm':
            if cfg['kind'] == '3d' or done('eqs'):
                continue
            s.options.tidal_turbine_farms['everywhere'] = 'not a list'
            try:
                s.create_equations()
            except TypeError:
                ctx.fault('bad_argument')
                ctx.nontrivial = True
            else:
                raise Violation('bad-farm-accepted', 'a turbine farm that is not a list was accepted')
            del s.options.tidal_turbine_farms['everywhere']
            continue
        if k in ('ts', 'exp', 'init', 'ic', 'bad_ic', 'bad_load', 'half_load'):
            settle('dt', 'hdf5')
        if k == 'bad_ic':
            try:
                s.assign_initial_conditions(nosuch=1.0)
            except (AssertionError, TypeError):
                ctx.fault('bad_argument')
                ctx.nontrivial = True
            else:
                raise Violation('bad-ic-accepted', 'an initial condition for a tracer that does not exist was accepted')
            continue
        if k == 'ic' and have_ic and cfg['kind'] == '3d':
            # initial conditions that depend on z are evaluated on the mesh as it is: the moved one
            continue
        disk.fired = []
        if op.get('plan'):
            disk.arm(op['plan'])
        init = bool(getattr(s, '_initialized', False))
        if k in ('bad_load', 'half_load') and have_ic is False and cfg['kind'] == '3d' and not init:
            # 3D fields hold no state before initial conditions are assigned
            pass
        before = snapshot()
        err = None
        try:
            do(op)
        except Exception as e:
            err = e
        fired = list(disk.fired)
        disk.disarm()
        ctx.ev('op', k, type(err).__name__ if err else None, len(fired))
        if k in ('bad_load', 'half_load'):
            if err is None:
                raise Violation('load-accepted', f'{k}: load_state succeeded though a file of the export is missing')
            ctx.fault('missing_restart_file')
            ctx.nontrivial = True
            st = (s.simulation_time, s.iteration, s.i_export)
            if st != (0, 0, 0):
                raise Violation('failed-load-clock', f'after a failed load_state (time, iteration, export) are {st}')
            after = snapshot()
            if before is not None and after is not None:
                for n in names:
                    if life.reldiff(before[n], after[n]) > 1e-12:
                        raise Violation('failed-load-state', f'a failed load_state changed {n}')
            elif after is not None:
                for n in names:
                    if np.abs(after[n]).max() != 0 and n not in ('salt_3d', 'temp_3d'):
                        raise Violation('failed-load-state', f'a failed load_state left values in {n}')
            continue
        if err is not None and not fired:
            raise Violation('setup-failed', f'{k} raised {type(err).__name__}: {err} without a fault; operations so far {[o["op"] for o in sc["ops"]]}', sig=f'setup-failed {type(err).__name__}') from err
        if err is not None:
            ctx.nontrivial = True
            ctx.probe('setup_call_failed')
            refused(s, 'no_such_attribute', 1, (TypeError, AttributeError))
            if op.get('retry') or k == 'ic':
                if not (k in STEPS and done(k)):
                    try:
                        do(op)
                    except Exception as e:
                        raise Violation('setup-not-repeatable', f'{k} failed ({type(err).__name__}: {err}); repeating it raised {type(e).__name__}: {e}', sig=f'setup-not-repeatable {type(e).__name__}') from e
        if k == 'ic':
            have_ic = True
    refused(s, 'no_such_attribute', 1, (TypeError, AttributeError))
    settle('dt', 'hdf5', 'tend', 'texp')
    rec = []
    finish(s, m, cfg, rec)
    ctx.count('steps', len(rec))
    ctx.sim_time += rec[-1][0]
    seams.use(None)
    if [r[:3] for r in rec] != [r[:3] for r in gold]:
        raise Violation('history', f'plain run {[r[:3] for r in gold]}, after this set-up {[r[:3] for r in rec]}')
    for a, b in zip(gold, rec):
        for n in names:
            d = life.reldiff(a[3][n], b[3][n])
            if not d <= 1e-9:
                raise Violation('state', f'{n} at t={a[0]} differs from the plain run by {d:.3e}')
    f = vtk_numbers(out)
    if f != gfiles:
        raise Violation('files', f'the plain run writes {gfiles}, after this set-up there are {f}')
    if not logged(out):
        raise Violation('no-log', 'no log file was written')
    dg = diagnostics(out)
    for v in gdiag:
        x, y = gdiag[v], dg.get(v)
        if y is None or x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-6, equal_nan=True):
            raise Violation('diagnostics', f'{v} holds {None if y is None else y.tolist()}, after the plain run {x.tolist()}')
    import thetis as th
    for n in sorted(x for x in f if x.endswith('.h5')):
        a, b = [read_h5(os.path.join(d, n)) for d in (gdir, out)]
        if a.keys() != b.keys() or any(not np.allclose(a[q], b[q], rtol=1e-9, atol=1e-9) for q in a):
            raise Violation('export-content', f'{n} differs from that of the plain run')


def read_h5(p):
    import h5py
    res = {}

    def visit(name, o):
        if isinstance(o, h5py.Dataset) and '/vecs/' in '/' + name + '/' and o.dtype.kind == 'f':
            res[name] = np.array(o)
    with h5py.File(p, 'r') as f:
        f.visititems(visit)
    return res


def refused(obj, name, value, errs):
    try:
        setattr(obj, name, value)
    except errs:
        return
    try:
        delattr(obj, name)
    except Exception:
        pass
    raise Violation('typo-accepted', f'{type(obj).__name__}.{name} = {value} was accepted')
