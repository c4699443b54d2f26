"""
S01  A 2D run killed at any point and continued with load_state is the uninterrupted run.
"""
import glob
import os

import numpy as np

from .. import life, seams
from ..core import Violation

TOL = 1e-7
TOL_ITERATIVE = 1e-5   # schemes whose solvers start from a guess that is not part of the state


def gen(rng, i, tier):
    # the configuration stays for a few runs, which reuse its kernels
    run, (rng, e) = rng, rng.epoch(4)
    ts = rng.choice(['CrankNicolson']*5 + ['BackwardEuler', 'DIRK22', 'SSPRK33', 'ForwardEuler', 'PressureProjectionPicard'])
    explicit = ts in ('SSPRK33', 'ForwardEuler')
    dt = rng.choice([1.0, 2.5, 5.0, 0.1, 0.7] if explicit else [20.0, 50.0, 62.5, 30.0])
    m = rng.choice([1, 2, 2, 3, 2.5, 1.5])
    texp = m*dt
    nsteps = rng.randint(3, 9 if tier == 'quick' else 16)
    tend = nsteps*dt if rng.random() < 0.7 else nsteps*dt - rng.choice([0.3, 0.5])*dt
    cfg = {'ts': ts, 'family': 'dg-cg' if ts == 'PressureProjectionPicard' else 'dg-dg',
           'dt': dt, 'texp': texp, 'tend': tend,
           'force': rng.choice(['none', 'vs', 'vs']),
           'dates': rng.choice(['none', 'none', 'init', 'both', 'both']),
           'tz_min': rng.choice([0, 0, -480, 330]),
           'vtk': rng.choice([[], [], ['elev_2d']]),
           'hdf5': rng.choice([['elev_2d', 'uv_2d'], ['uv_2d', 'elev_2d']]),
           'generator': rng.random() < 0.3, 'extra': 'none'}
    if e % 3 == 1:
        if ts in ('CrankNicolson', 'BackwardEuler', 'DIRK22', 'SSPRK33', 'ForwardEuler'):
            cfg['extra'] = rng.choice(['tracer', 'tracer-two', 'tracer-cons', 'tracer-diff-lim', 'tracer-mixed', 'tracer-two-cons'])
        if ts == 'CrankNicolson' and rng.random() < 0.5:
            cfg['extra'] = rng.choice(['sed-susp', 'sed-susp-cons', 'sed-bed-ex', 'sed-susp-bed-ex'])
    elif e % 6 == 5 and ts in ('CrankNicolson', 'BackwardEuler', 'DIRK22', 'SSPRK33', 'ForwardEuler'):
        cfg['extra'] = rng.choice(['nh', 'nh', 'nh-nofs'])
    rng = run
    nsteps = rng.randint(3, 9 if tier == 'quick' else 16)
    tend = nsteps*dt if rng.random() < 0.7 else nsteps*dt - rng.choice([0.3, 0.5])*dt
    cfg.update(texp=rng.choice([1, 2, 2, 3, 2.5, 1.5])*dt, tend=tend, dates=rng.choice(['none', 'none', 'init', 'both', 'both']),
               tz_min=rng.choice([0, 0, -480, 330]), generator=rng.random() < 0.3)
    lives = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(['force', 'yield', 'ack', 'disk', 'disk'])
        if kind == 'disk':
            k = rng.choice(['crash', 'crash', 'crash_after', 'error', 'torn'])
            match = rng.choice(['', 'ck', 'cksave ', 'ckclose', 'ckattr'])
            kill = {'kind': 'disk', 'plan': [{'at': rng.randint(0, 25), 'kind': k, 'match': match, 'frac': rng.random(),
                                              'errno': rng.choice(['EIO', 'ENOSPC'])}]}
        else:
            kill = {'kind': kind, 'at': rng.randint(1, nsteps + 1)}
        lives.append({'kill': kill, 'back': rng.choice([0, 0, 0, 1, 2]), 'newdir': rng.random() < 0.25,
                      'remesh': rng.random() < 0.15})
    return {'cfg': cfg, 'lives': lives}


def valid(sc):
    return bool(sc['lives'])


def shrink(sc):
    import copy
    for key, val in (('extra', 'none'), ('force', 'none'), ('dates', 'none'), ('tz_min', 0), ('vtk', []), ('generator', False), ('ts', 'CrankNicolson')):
        if sc['cfg'][key] != val:
            c = copy.deepcopy(sc)
            c['cfg'][key] = val
            if key == 'ts':
                c['cfg']['family'] = 'dg-dg'
            yield c
    n = int(round(sc['cfg']['tend']/sc['cfg']['dt']))
    for k in (n//2, n - 1):
        if 1 <= k < n:
            c = copy.deepcopy(sc)
            c['cfg']['tend'] = k*sc['cfg']['dt']
            yield c
    for j, lf in enumerate(sc['lives']):
        for key, val in (('back', 0), ('newdir', False), ('remesh', False)):
            if lf[key] != val:
                c = copy.deepcopy(sc)
                c['lives'][j][key] = val
                yield c
        if lf['kill'].get('at', 1) > 1:
            c = copy.deepcopy(sc)
            c['lives'][j]['kill']['at'] -= 1
            yield c


def tolerance(cfg):
    return TOL_ITERATIVE if cfg['ts'] == 'PressureProjectionPicard' or cfg['extra'].startswith('sed') else TOL


def indices(outdir, stem):
    """Export indices present on disk for a field."""
    r = []
    for f in glob.glob(os.path.join(outdir, 'hdf5', f'{stem}_*.h5')):
        n = os.path.basename(f)[len(stem) + 1:-3]
        if n.isdigit():
            r.append(int(n))
    return set(r)


def complete(m, outdir):
    """Exports of which every state variable is on disk."""
    have = None
    for f in m.state_fields:
        ix = indices(outdir, m.export_names[f])
        have = ix if have is None else have & ix
    return have


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-7*max(1.0, abs(float(b)))


def compare_life(ctx, gold, tr, i0, fresh, same_mesh, tol=TOL):
    """tr must be a contiguous piece of the golden history starting at export i0."""
    # golden position of export i0
    gt = dict(gold.exports)
    gtimes = [gold.start[0]] + [x[0] for x in gold.steps]
    k0 = int(np.argmin([abs(float(t) - float(gt[i0])) for t in gtimes]))
    t, it, ie, st = tr.start
    if t is None or not close(t, gtimes[k0]):
        raise Violation('resume-time', f'export {i0} was written at t={gtimes[k0]}, resumed at t={t}')
    if not fresh and it != k0:
        raise Violation('resume-iteration', f'export {i0} belongs to iteration {k0}, resumed with iteration {it}')
    if ie != i0:
        raise Violation('resume-index', f'resumed from export {i0} with export index {ie}')
    if same_mesh:
        ref = gold.start[3] if k0 == 0 else gold.steps[k0 - 1][3]
        for k in ref:
            d = life.reldiff(ref[k], st[k])
            if not d <= tol:
                raise Violation('resume-state', f'{k} right after load_state({i0}) differs from the stored run by {d:.3e}')
    for n, (t, it, ie, st) in enumerate(tr.steps):
        k = k0 + 1 + n
        if k >= len(gtimes):
            raise Violation('extra-steps', f'resumed at step {k0}, the run takes a step to t={t}, the uninterrupted one ends at t={gtimes[-1]}')
        gtk, git, gie, gst = gold.steps[k - 1]
        if not close(t, gtk) or it != git or ie != gie:
            raise Violation('clock', f'step {k}: uninterrupted (t, iteration, i_export)=({gtk}, {git}, {gie}), resumed ({t}, {it}, {ie})')
        if same_mesh:
            for key in gst:
                d = life.reldiff(gst[key], st[key])
                key_ = f'{ctx.label} {key}'
                ctx.worst[key_] = max(ctx.worst.get(key_, 0.0), d)
                if not d <= tol:
                    raise Violation('state', f'{key} at t={t}: resumed from export {i0} differs from the uninterrupted run by {d:.3e} (relative)')
    if tr.outcome == 'end' and k0 + len(tr.steps) != len(gold.steps):
        raise Violation('stopped-early', f'resumed run ends at t={tr.end[0]}, uninterrupted at t={gold.end[0]}')
    gex = [e for e in gold.exports if e[0] > i0]
    ex = [e for e in tr.exports if e[0] > i0]
    for a, b in zip(gex, ex):
        if a[0] != b[0] or not close(a[1], b[1]):
            raise Violation('export-schedule', f'uninterrupted exports {gex}, resumed {ex}')
    if tr.outcome == 'end' and len(ex) != len(gex):
        raise Violation('export-schedule', f'uninterrupted exports {gex}, resumed {ex}')


def canonical_trace(solver, tr):
    import copy
    c = copy.copy(tr)
    c.start = tr.start[:3] + (life.canonical_state(solver, tr.start[3]),)
    c.steps = [x[:3] + (life.canonical_state(solver, x[3]),) for x in tr.steps]
    return c


def check_files(ctx, model, outdir, gold, acked, mesh, same_mesh=True):
    gt = dict(gold.exports)
    gtimes = [gold.start[0]] + [x[0] for x in gold.steps]
    for i in sorted(acked):
        k = int(np.argmin([abs(float(t) - float(gt[i])) for t in gtimes]))
        ref = gold.start[3] if k == 0 else gold.steps[k - 1][3]
        for fld in model.state_fields:
            path = os.path.join(outdir, 'hdf5', f'{model.export_names[fld]}_{i:05d}.h5')
            if not os.path.isfile(path):
                raise Violation('export-missing', f'export {i} of {fld} was completed but {os.path.relpath(path, outdir)} does not exist')
            from thetis import field_metadata  # noqa: documented names
            arr, t = life.load_export(mesh, path, model.solver.fields[fld].name())
            if t is not None and not close(t, gt[i]):
                raise Violation('export-time', f'{os.path.basename(path)} has time {t}, the state belongs to {gt[i]}')
            d = life.reldiff(ref[fld], arr)
            if not d <= tolerance(model.cfg):
                raise Violation('export-content', f'{os.path.basename(path)} differs from the state at t={gt[i]} by {d:.3e}')


def run(sc, ctx):
    W = life.World.get()
    cfg = sc['cfg']
    ctx.label = cfg['ts'] + ' ' + cfg['extra']
    # the uninterrupted run
    gdir = os.path.join(ctx.scratch, 'golden')
    seams.use(None)
    g = life.Model2D(W, ctx, cfg)
    gold = g.life(gdir)
    if gold.outcome != 'end':
        raise Violation('run-failed', f'an undisturbed run did not finish: {gold.outcome} {gold.error!r}', sig=type(gold.error).__name__)
    ctx.ev('golden', [round(float(x[0]), 6) for x in gold.steps], [e[0] for e in gold.exports])
    life.rm(gdir)
    # the interrupted one
    disk = life.new_disk(ctx)
    m = life.Model2D(W, ctx, cfg, disk)
    try:
        outdir = os.path.join(disk.root, 'out0')
        ndir = 0
        acked = {outdir: set()}
        started = {}
        resume = None
        i0 = 0
        remesh = False
        last = False
        lives = list(sc['lives'])
        guard = 0
        while True:
            guard += 1
            lf = lives.pop(0) if lives else None
            last = lf is None
            mesh = None
            if resume is not None and remesh:
                from thetis import read_mesh_from_checkpoint
                mesh = read_mesh_from_checkpoint(resume.get('outputdir') or outdir)
                ctx.probe('mesh_read_from_export')
            tr = m.life(outdir, mesh2d=mesh, resume=resume, kill=None if last else lf['kill'])
            if tr.start is None:
                # load_state did not succeed
                # exports become visible only when complete: every index that exists must load
                raise Violation('load-failed', f"all files of export {resume['i']} exist but load_state raised {tr.error!r}") from tr.error
            else:
                if resume is not None:
                    ctx.nontrivial = True
                ref = gold
                if mesh is not None:
                    ref = canonical_trace(g.solver, gold)
                    tr = canonical_trace(m.solver, tr)
                compare_life(ctx, ref, tr, i0, resume is None, True,
                             tolerance(cfg))
                acked[outdir] |= set(tr.acked)
            if tr.outcome == 'error' and tr.start is not None and not disk.fired:
                raise Violation('run-failed', f'the run resumed from export {i0} raised {tr.error!r}') from tr.error
            disk.restart()
            if tr.outcome == 'end':
                if last:
                    break
                # the fault did not hit; continue from some checkpoint anyway
                ctx.probe('fault_not_reached')
            if guard > 12:
                raise RuntimeError('too many lives')
            # pick the checkpoint to continue from
            cands = []
            have = complete(m, outdir)
            for i in have:
                cands.append((i, outdir))
            src0 = resume.get('outputdir') if resume else None
            if src0:
                cands += [(i, src0) for i in complete(m, src0)]
            if cfg['dates'] == 'both':
                # nothing is left to run: the solver refuses a start at or after the end date
                cands = [c for c in cands if dict(gold.exports)[c[0]] < cfg['tend'] - 1e-6]
            cands.sort(key=lambda c: (c[0], c[1] == outdir))
            if not cands:
                resume, i0 = None, 0
                continue
            back = lf['back'] if lf else 0
            remesh = bool(lf and lf['remesh'])
            i, src = cands[max(0, len(cands) - 1 - back)]
            i0 = i
            newdir = bool(lf and lf['newdir'])
            if newdir:
                ndir += 1
                outdir = os.path.join(disk.root, f'out{ndir}')
                acked.setdefault(outdir, set())
                ctx.probe('continued_in_other_directory')
            resume = {'i': i, 't_force': dict(gold.exports)[i]}
            if src != outdir:
                resume['outputdir'] = src
        seams.use(None)
        for d, s in acked.items():
            check_files(ctx, m, d, gold, s, W.mesh)
        # the last life's directory holds every later export
    finally:
        disk.disarm()
        seams.use(None)
