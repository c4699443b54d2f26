"""
S05  Diagnostic time series on disk: after any history of evaluations, I/O errors, crashes and continued runs a
     diagnostic file holds exactly one entry per evaluation, in time order.
"""
import datetime
import os
from types import SimpleNamespace

import numpy as np

from .. import life, seams
from ..core import SimCrash, Violation


class FakeComm:
    """A rank of a simulated communicator; diagnostics only look at rank/size and synchronise."""
    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def barrier(self):
        pass

    Barrier = barrier

    def bcast(self, x, root=0):
        return x


def gen(rng, i, tier):
    if rng.random() < (0.12 if tier == 'quick' else 0.2):
        return gen_solver(rng, tier)
    ncb = rng.choice([1, 1, 2, 3])
    cbs = []
    dt = rng.choice([1.0, 0.1, 12.5, 900.0])
    for c in range(ncb):
        w = rng.choice(['none', 'none', 'none', 'start', 'end', 'both', 'zero'])
        a, b = sorted(rng.sample(range(0, 20), 2))
        st = en = None
        if w in ('start', 'both'):
            st = (a + rng.choice([0, 0.5]))*dt
        if w in ('end', 'both'):
            en = (b + rng.choice([0, 0.5]))*dt
        if w == 'zero':
            en = 0.0
        cbs.append({'name': rng.choice(['gauge', 'vol check', 'profile', 'zz']) + str(c), 'dim': rng.choice([1, 1, 3, [2, 2]]),
                    'nvar': rng.randint(1, 3), 'mode': rng.choice(['export', 'export', 'timestep']),
                    'dtype': rng.choice(['d', 'd', 'f']), 'start': st, 'end': en,
                    'index': rng.random() < 0.5, 'time': True})
    if rng.random() < 0.08:
        cbs[0]['time'] = False       # nothing then tells repeated entries apart: one life, no crash
    lives = []
    m = rng.choice([1, 2, 3])
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2])):
                faults.append({'at': rng.choice([rng.randint(0, 8), rng.randint(0, 25), rng.randint(0, 60)]), 'kind': rng.choice(['error', 'error', 'crash', 'crash_after']),
                               'match': rng.choice(['', 'h5write', 'h5resize', 'h5open', 'h5close', 'h5create']),
                               'errno': rng.choice(['EIO', 'ENOSPC', 'EDQUOT'])})
        lives.append({'steps': rng.randint(1, 14), 'back': rng.choice([0, 0, 0, 1, 2, 5]), 'faults': faults,
                      'newdir': rng.random() < 0.15, 'retry': rng.random() < 0.5})
    if not cbs[0]['time']:
        lives = lives[:1]
        for f in lives[0]['faults']:
            f['kind'] = 'error'
    return {'mode': 'direct', 'dt': dt, 'm': m, 'callbacks': cbs, 'lives': lives,
            'date': rng.choice([None, '2011-02-03T04:05:06+00:00', '1999-12-31T16:00:00-08:00']),
            'rank1': rng.random() < 0.2, 't0': rng.choice([0.0, 0.0, 5.0])}


def gen_solver(rng, tier):
    dim = rng.choice([2, 2, 3])
    dt = 50.0
    n = rng.randint(4, 9)
    lives = []
    for _ in range(rng.choice([1, 1, 2])):
        lives.append({'kill': {'kind': rng.choice(['force', 'ack', 'disk'] if dim == 2 else ['force', 'disk']), 'at': rng.randint(2, n + 1),
                               'plan': [{'at': rng.randint(5, 80), 'kind': 'crash', 'match': rng.choice(['', 'h5', 'ck'])}]},
                      'back': rng.choice([0, 0, 1]), 'newdir': rng.random() < 0.25})
    return {'mode': 'solver', 'dim': dim, 'cfg': {'ts': 'CrankNicolson', 'dt': dt, 'dt2d': dt, 'texp': dt*rng.choice([1, 2]), 'tend': n*dt, 'force': 'none',
                                                  'dates': rng.choice(['none', 'init', 'both']), 'vtk': []},
            'lives': lives, 'cb_start': rng.choice([None, None, 0.0, 2*dt])}


def values(c, cb, t):
    out = []
    dim = cb['dim']
    shape = tuple(dim) if isinstance(dim, list) else (dim,)
    for v in range(cb['nvar']):
        base = np.sin(0.37*t + v) + 10*c + np.arange(int(np.prod(shape))).reshape(shape)
        out.append(base if shape != (1,) else float(base[0]))
    return tuple(out)


def make_callback(c, cb, solver):
    import thetis as th

    class CB(th.DiagnosticCallback):
        name = cb['name']
        variable_names = [f'var{v}' for v in range(cb['nvar'])]

        def __call__(self):
            return values(c, cb, solver.simulation_time)

        def message_str(self, *args):
            return 'x'
    dim = cb['dim']
    kw = {}
    if cb['start'] is not None:
        kw['start_time'] = cb['start']
    if cb['end'] is not None:
        kw['end_time'] = cb['end']
    return CB(solver, array_dim=tuple(dim) if isinstance(dim, list) else dim, append_to_log=False, hdf5_dtype=cb['dtype'],
              include_time=cb['time'], **kw)


def expect_file(ctx, path, c, cb, rows, date, when, slack=0):
    import h5py
    if not rows and not os.path.isfile(path):
        return
    if not os.path.isfile(path):
        raise Violation('file-missing', f'{os.path.basename(path)} does not exist {when}, {len(rows)} entries were stored')
    try:
        f = h5py.File(path, 'r')
    except OSError as e:
        if not rows:
            return
        raise Violation('file-unreadable', f'{os.path.basename(path)} cannot be opened {when} ({e}), {len(rows)} entries had been stored') from e
    with f:
        single = cb['dtype'] == 'f'
        tol = 1e-6 if single else 1e-12
        for v in range(cb['nvar']):
            if f'var{v}' not in f:
                raise Violation('dataset-missing', f'var{v} not in {os.path.basename(path)} {when}')
        lens = {v: f[v].shape[0] for v in [f'var{v}' for v in range(cb['nvar'])] + (['time'] if cb['time'] else [])}
        n = len(rows)
        # an entry in flight when the process died may be present, in part
        if not all(n <= x <= n + slack for x in lens.values()):
            stored = f['time'][:, 0].tolist() if 'time' in f else None
            raise Violation('entry-count', f'{os.path.basename(path)} {when}: {len(rows)} evaluations at {rows}, entries per dataset {lens}, stored times {stored}')
        if cb['time']:
            got = f['time'][:n, 0]
            if not np.allclose(got, rows, rtol=tol, atol=1e-9):
                raise Violation('entry-times', f'{os.path.basename(path)} {when}: evaluated at {rows}, stored {got.tolist()}')
            if date is not None:
                u = f['time'].attrs.get('units')
                if u is not None and isinstance(u, bytes):
                    u = u.decode()
                if u is not None and datetime.datetime.fromisoformat(u.replace('seconds since ', '')) != datetime.datetime.fromisoformat(date):
                    raise Violation('time-units', f'time units {u!r}, initial date {date}')
        for v in range(cb['nvar']):
            data = f[f'var{v}'][:]
            for r, t in enumerate(rows):
                want = np.atleast_1d(values(c, cb, t)[v])
                if not np.allclose(data[r], want, rtol=10*tol, atol=1e-9):
                    raise Violation('entry-values', f'{os.path.basename(path)} {when}: var{v} at t={t} is {data[r].tolist()}, evaluated {want.tolist()}')


def run(sc, ctx):
    if sc['mode'] == 'solver':
        return run_solver(sc, ctx)
    disk = life.new_disk(ctx)
    st = SimpleNamespace(out=os.path.join(disk.root, 'out'), nd=0, dead=set(), k0=0, fresh=True, k=0, crashed=False, slack={},
                         rows={c: [] for c in range(len(sc['callbacks']))})
    try:
        for ln, lf in enumerate(sc['lives']):
            if ln:
                next_life(sc, lf, st, disk, ctx)
            # a file whose clean-up failed as well is not judged any more
            broken = set(st.dead)
            try:
                one_life(sc, lf, st, disk, ctx, broken)
                disk.disarm()
                st.crashed = False
            except SimCrash:
                disk.restart()
                st.crashed = True
                ctx.nontrivial = True
                after_crash(sc, st, ctx, broken)
            check_all(ctx, st.out, sc, st.rows, f'after life {ln}' + (' (crash)' if st.crashed else ''), broken, st.slack)
            ctx.ev('rows', {c: len(r) for c, r in st.rows.items()})
    finally:
        disk.disarm()
        seams.use(None)


def one_life(sc, lf, st, disk, ctx, broken):
    import thetis as th
    from thetis.callback import CallbackManager
    dt, m, t0, rows = sc['dt'], sc['m'], sc['t0'], st.rows
    date = datetime.datetime.fromisoformat(sc['date']) if sc['date'] else None
    sol = SimpleNamespace(options=SimpleNamespace(output_directory=st.out, simulation_initial_date=date),
                          comm=FakeComm(0, 2) if sc['rank1'] else th.COMM_WORLD, simulation_time=t0)
    sol1 = SimpleNamespace(options=sol.options, comm=FakeComm(1, 2), simulation_time=t0)
    cbs, others = [], []
    for c, cb in enumerate(sc['callbacks']):
        o = make_callback(c, cb, sol)
        if not st.fresh:
            o.set_write_mode('append')
        # one manager each: the model then knows which callback a fault hit
        cm = CallbackManager()
        cm.add(o, cb['mode'])
        cbs.append(cm)
        if sc['rank1']:
            others.append(make_callback(c, cb, sol1))
    first = {c: not st.fresh for c in rows}
    disk.arm(lf['faults'])
    for st.k in range(st.k0 + (0 if st.fresh else 1), st.k0 + lf['steps'] + 1):
        t = t0 + st.k*dt
        sol.simulation_time = sol1.simulation_time = t
        for mode in ('timestep', 'export'):
            if (mode == 'export' and st.k % m) or (mode == 'timestep' and st.k == 0):
                continue
            for c, cb in enumerate(sc['callbacks']):
                if cb['mode'] != mode or c in st.dead:
                    continue
                due = (cb['start'] is None or t >= cb['start']) and (cb['end'] is None or t <= cb['end'])
                for attempt in range(2 if lf['retry'] else 1):
                    base = list(rows[c])
                    if due and first[c] and cb['time']:
                        base = [r for r in base if r < t - 1e-6*max(1, abs(t))]
                    st.inflight = (c, list(rows[c]), base + [t] if due else list(rows[c]), due)
                    nf = len(disk.fired)
                    try:
                        kw = {'index': st.k//m} if cb['index'] and mode == 'export' else {}
                        cbs[c].evaluate(mode, **kw)
                        st.inflight = None
                        if due:
                            rows[c] = base + [t]
                            first[c] = False
                            st.slack[c] = 0
                        elif not due and len(disk.fired) > nf:
                            raise RuntimeError('fault in an evaluation that was not due')
                        ctx.count('evaluations')
                        break
                    except OSError as e:
                        ctx.nontrivial = True
                        n = stored_len(os.path.join(st.out, fname(cb)))
                        fired = [x[1] for x in disk.fired[nf:]]
                        ctx.ev('ioerror', c, t, str(e)[:40], n)
                        if len(fired) > 1 or any('h5create' in x or 'h5open' in x and not rows[c] for x in fired):
                            # rollback hit as well, or the file could not be created
                            broken.add(c)
                        if len(fired) > 1:
                            st.dead.add(c)
                            break
                        if any('h5close' in x for x in fired) and n == len(base) + 1:
                            # everything had been handed over: stored, or not stored, are both right
                            rows[c] = base + [t]
                            first[c] = False
                            st.slack[c] = 0
                            break
                        if n == len(base) and n < len(rows[c]):
                            # failed while dropping repeated entries: the rest goes with the next evaluation
                            st.slack[c] = len(rows[c]) - len(base) + st.slack.get(c, 0)
                            rows[c] = base
        for o in others:
            o.evaluate()
        ctx.sim_time += dt


def after_crash(sc, st, ctx, broken):
    """The entry in flight may be there, absent or incomplete; every other one must be there."""
    c, before, after, due = st.inflight
    cb = sc['callbacks'][c]
    n = stored_len(os.path.join(st.out, fname(cb)))
    ctx.ev('after-crash', c, n, len(before), len(after))
    if n is None:
        if before:
            raise Violation('crash-lost-file', f'{fname(cb)} holds {len(before)} stored entries and is unreadable after a crash in the next evaluation')
        broken.add(c)
        return
    keep = len(after) - 1 if due else len(after)
    if n < keep:
        raise Violation('crash-lost-entries', f'{fname(cb)}: of {keep} earlier entries {n} are left after a crash in the next evaluation')
    st.rows[c] = after[:keep]
    if due:
        # tolerated until the next stored entry
        st.slack[c] = max(1, len(before) + st.slack.get(c, 0) - keep)


def fname(cb):
    return f"diagnostic_{cb['name'].replace(' ', '_')}.hdf5"


def stored_len(path):
    import h5py
    d = seams.current
    seams.use(None)
    try:
        with h5py.File(path, 'r') as f:
            return min(f[v].shape[0] for v in f)
    except (OSError, ValueError):
        return None
    finally:
        seams.use(d)


def check_all(ctx, out, sc, rows, when, skip, slack):
    d = seams.current
    seams.use(None)
    try:
        for c, cb in enumerate(sc['callbacks']):
            if c not in skip:
                expect_file(ctx, os.path.join(out, fname(cb)), c, cb, rows[c], sc['date'], when, slack.get(c, 0))
        ctx.count('file_checks')
    finally:
        seams.use(d)


def next_life(sc, lf, st, disk, ctx):
    """Choose the export the next life continues from."""
    m = sc['m']
    last = (st.k - 1)//m if st.crashed else st.k//m
    st.k0 = max(0, last - lf['back'])*m
    if last < 0 or lf['newdir'] or (st.crashed and st.k0 == 0 and st.k == 0):
        st.k0 = max(st.k0, 0)
    st.fresh = last < 0
    st.inflight = None
    if lf['newdir']:
        st.nd += 1
        st.dead = set()
        st.out = os.path.join(disk.root, f'out{st.nd}')
        st.slack = {}
        for c in st.rows:
            st.rows[c] = []
    elif st.fresh:
        st.slack = {}
        for c in st.rows:
            st.rows[c] = []
    ctx.ev('continue', st.k0, st.out[-4:])


# --- whole solver -----------------------------------------------------------

def run_solver(sc, ctx):
    from .s01 import indices
    W = life.World.get()
    cfg = sc['cfg']
    M = life.Model2D if sc['dim'] == 2 else life.Model3D

    def setup(s, tr):
        from thetis import callback as th
        s.options.check_volume_conservation_2d = True
        x = th.VolumeConservation2DCallback(s, start_time=sc['cb_start']) if sc['cb_start'] is not None else th.VolumeConservation2DCallback(s)
        x.name = 'per step'
        s.add_callback(x, 'timestep')

    def read(outdir):
        import h5py
        r = {}
        for n in ('volume2d', 'per_step'):
            p = os.path.join(outdir, f'diagnostic_{n}.hdf5')
            if os.path.isfile(p):
                with h5py.File(p, 'r') as f:
                    r[n] = (f['time'][:, 0], f['integral'][:, 0])
            else:
                r[n] = (np.zeros(0), np.zeros(0))
        return r
    seams.use(None)
    gdir = os.path.join(ctx.scratch, 'golden')
    gold = M(W, ctx, cfg).life(gdir, keep_states=False, hooks={'setup': setup})
    if gold.outcome != 'end':
        raise Violation('run-failed', f'an uninterrupted run failed: {gold.error!r}') from gold.error
    gref = read(gdir)
    for n, times in (('volume2d', [e[1] for e in gold.exports]),
                     ('per_step', [x[0] for x in gold.steps if sc['cb_start'] is None or x[0] >= sc['cb_start']])):
        if not (len(gref[n][0]) == len(times) and np.allclose(gref[n][0], times)):
            raise Violation('run-entries', f'uninterrupted run: {n} evaluated at {list(map(float, times))}, stored {gref[n][0].tolist()}')
    life.rm(gdir)
    disk = life.new_disk(ctx)
    m = M(W, ctx, cfg, disk)
    out, nd, resume = os.path.join(disk.root, 'out0'), 0, None
    dir_start = {out: -1.0}
    lives = list(sc['lives'])
    try:
        for guard in range(12):
            lf = lives.pop(0) if lives else None
            tr = m.life(out, resume=resume, kill=lf['kill'] if lf else None, keep_states=False, hooks={'setup': setup})
            if tr.outcome == 'error':
                raise Violation('continued-run-failed', f'continued from {resume}: {tr.error!r}') from tr.error
            disk.restart()
            if tr.outcome == 'end' and lf is None:
                break
            ctx.nontrivial = True
            src = (resume or {}).get('outputdir')
            cands = []
            for d in {out, src} - {None}:
                have = None
                for fld in m.state_fields:
                    ix = indices(d, m.export_names[fld])
                    have = ix if have is None else have & ix
                cands += [(i, d) for i in have]
            if cfg['dates'] == 'both':
                cands = [c for c in cands if dict(gold.exports)[c[0]] < cfg['tend'] - 1e-6]
            # a directory that was left is only a source of exports up to the one that was taken from it
            cands = [c for c in cands if c[1] == out or dict(gold.exports)[c[0]] <= dir_start[out] + 1e-6]
            # likewise the exports of an earlier life past the point that this one reached
            reached = max([(resume or {'i': 0})['i']] + [e[0] for e in tr.exports])
            cands = sorted([c for c in cands if c[0] <= reached], key=lambda c: (c[0], c[1] == out))
            if not cands:
                resume = None
                continue
            i, src = cands[max(0, len(cands) - 1 - (lf['back'] if lf else 0))]
            if lf and lf['newdir']:
                nd += 1
                out = os.path.join(disk.root, f'out{nd}')
                dir_start[out] = dict(gold.exports)[i]
            if src != out:
                dir_start[out] = min(dir_start[out], dict(gold.exports)[i])
            resume = {'i': i, 't_force': dict(gold.exports)[i]}
            if src != out:
                resume['outputdir'] = src
        seams.use(None)
        got = read(out)
        for n in ('volume2d', 'per_step'):
            t, v = gref[n]
            keep = t >= dir_start[out] - 1e-6 if n == 'volume2d' else t > dir_start[out] + 1e-6
            t, v = t[keep], v[keep]
            gt, gv = got[n]
            if len(gt) != len(t) or not np.allclose(gt, t):
                raise Violation('continued-entries', f'{n}: uninterrupted run has entries at {t.tolist()}, interrupted and continued run {gt.tolist()}')
            if sc['dim'] == 2 and not np.allclose(gv, v, rtol=1e-7):
                raise Violation('continued-values', f'{n}: values differ by {np.abs(gv - v).max()}')
    finally:
        disk.disarm()
        seams.use(None)
