"""
S02  A 3D run killed at any point and continued with load_state carries the stored state, clock and export
     schedule on, and continuing is repeatable.
"""
import os

import numpy as np

from .. import life, seams
from ..core import Violation
from .s01 import close, indices

TOL_STATE = 1e-9      # stored and restored state
TOL_REPEAT = 1e-10    # two continuations from the same files
TOL_TRAJ = {'elev_2d': 0.15, 'uv_2d': 0.15, 'salt_3d': 5e-3}       # the coupling term of the split scheme is not part of the stored state (documented list)


def gen(rng, i, tier):
    # the configuration stays for a few runs, which reuse its kernels
    run, (rng, e) = rng, rng.epoch(3)
    dt = rng.choice([20.0, 50.0])
    m2 = rng.choice([1, 1, 2])
    m = rng.choice([1, 2, 2, 3])
    turb = None
    if rng.random() < (0.1 if tier == 'quick' else 0.15):
        turb = 'gls'
    n = rng.randint(2, 6 if tier == 'quick' else 10)
    cfg = {'ts': '3d', 'ts3d': rng.choice(['SSPRK22', 'SSPRK22', 'SSPRK22', 'LeapFrog']), 'dt': dt, 'dt2d': dt/m2, 'texp': m*dt,
           'tend': n*dt, 'salt': rng.random() < 0.8, 'temp': False,
           'ale': rng.random() < 0.75, 'turb': turb,
           'dates': rng.choice(['none', 'none', 'init', 'both']), 'tz_min': rng.choice([0, -480, 330]),
           'vtk': rng.choice([[], [], ['uv_3d']])}
    if turb:
        cfg.update(salt=True, ale=True, ts3d='SSPRK22', dt2d=dt)
    if cfg['ts3d'] == 'LeapFrog':
        cfg['ale'] = True
        cfg['dt2d'] = dt
        cfg['turb'] = None
    rng = run
    n = rng.randint(2, 6 if tier == 'quick' else 10)
    m = rng.choice([1, 2, 2, 3])
    cfg.update(texp=m*dt, tend=n*dt, dates=rng.choice(['none', 'none', 'init', 'both']), tz_min=rng.choice([0, -480, 330]))
    lives = []
    for _ in range(rng.choice([1, 1, 2])):
        kind = rng.choice(['force', 'ack', 'disk', 'disk'])
        if kind == 'disk':
            kill = {'kind': 'disk', 'plan': [{'at': rng.randint(0, 60), 'kind': rng.choice(['crash', 'crash', 'crash_after', 'torn', 'error']),
                                              'match': rng.choice(['', 'ck', 'cksave ', 'ckclose']), 'frac': rng.random(),
                                              'errno': rng.choice(['EIO', 'ENOSPC'])}]}
        elif kind == 'force':
            kill = {'kind': 'force', 'at': rng.randint(1, 2*n)}
        else:
            kill = {'kind': 'ack', 'at': rng.randint(1, n//m + 1)}
        lives.append({'kill': kill, 'back': rng.choice([0, 0, 0, 1, 2]), 'newdir': rng.random() < 0.25, 'repeat': rng.random() < 0.35})
    return {'cfg': cfg, 'lives': lives}


def valid(sc):
    return bool(sc['lives'])


def shrink(sc):
    import copy
    for key, val in (('dates', 'none'), ('tz_min', 0), ('vtk', []), ('ts3d', 'SSPRK22'), ('turb', None), ('ale', True), ('salt', False)):
        if sc['cfg'][key] != val:
            c = copy.deepcopy(sc)
            c['cfg'][key] = val
            yield c
    for j, lf in enumerate(sc['lives']):
        for key, val in (('back', 0), ('newdir', False), ('repeat', False)):
            if lf[key] != val:
                c = copy.deepcopy(sc)
                c['lives'][j][key] = val
                yield c


class M3(life.Model3D):
    keep_export_states = True

    def iterate(self, s, upd, ack):
        s.iterate(update_forcings=upd, update_forcings3d=lambda t: None, export_func=ack)


def run(sc, ctx):
    W = life.World.get()
    cfg = sc['cfg']
    seams.use(None)
    gdir = os.path.join(ctx.scratch, 'golden')
    gold = M3(W, ctx, cfg).life(gdir)
    life.rm(gdir)
    if gold.outcome != 'end':
        raise Violation('run-failed', f'an uninterrupted run failed: {gold.error!r}') from gold.error
    gt = dict(gold.exports)
    gtimes = [gold.start[0]] + [x[0] for x in gold.steps]
    disk = life.new_disk(ctx)
    m = M3(W, ctx, cfg, disk)
    out = os.path.join(disk.root, 'out0')
    nd = 0
    resume, i0 = None, 0
    stored = {}       # (directory, index) -> states that have been exported there under that index
    lives = list(sc['lives'])
    repeat = False
    try:
        for guard in range(12):
            lf = lives.pop(0) if lives else None
            if resume is not None and repeat:
                # continue from the same files elsewhere first
                rdir = os.path.join(disk.root, 'rep')
                rres = dict(resume)
                rres['outputdir'] = resume.get('outputdir', out)
                seams.use(None)
                rep = m.life(rdir, resume=rres)
                life.rm(rdir)
                seams.use(disk)
                ctx.probe('continued_twice')
            else:
                rep = None
            tr = m.life(out, resume=resume, kill=lf['kill'] if lf else None)
            if tr.start is None:
                raise Violation('load-failed', f"export {resume['i']} is complete but load_state raised {tr.error!r}") from tr.error
            src = out if resume is None else resume.get('outputdir', out)
            if resume is not None:
                ctx.nontrivial = True
            judge(ctx, gold, gt, gtimes, tr, i0, resume, stored.get((src, i0)), rep)
            for i, st in tr.export_states.items():
                stored.setdefault((out, i), []).append(st)
            if tr.outcome == 'error' and not disk.fired:
                raise Violation('run-failed', f'the run continued from export {i0} raised {tr.error!r}') from tr.error
            disk.restart()
            if tr.outcome == 'end' and lf is None:
                break
            if tr.outcome == 'end':
                ctx.probe('fault_not_reached')
            cands = []
            for d in {out, src}:
                have = None
                for f in m.state_fields:
                    ix = indices(d, m.export_names[f])
                    have = ix if have is None else have & ix
                cands += [(i, d) for i in have]
            if cfg['dates'] == 'both':
                cands = [c for c in cands if float(gt[c[0]]) < cfg['tend'] - 1e-6]
            cands.sort(key=lambda c: (c[0], c[1] == out))
            if not cands:
                resume, i0 = None, 0
                continue
            i0, src = cands[max(0, len(cands) - 1 - (lf['back'] if lf else 0))]
            repeat = bool(lf and lf['repeat'])
            if lf and lf['newdir']:
                nd += 1
                out = os.path.join(disk.root, f'out{nd}')
                ctx.probe('continued_in_other_directory')
            resume = {'i': i0}
            if src != out:
                resume['outputdir'] = src
    finally:
        disk.disarm()
        seams.use(None)


def judge(ctx, gold, gt, gtimes, tr, i0, resume, states, rep):
    k0 = int(np.argmin([abs(float(t) - float(gt[i0])) for t in gtimes]))
    t, it, ie, st = tr.start
    if resume is not None:
        if t is None or not close(t, gtimes[k0]):
            raise Violation('resume-time', f'export {i0} was written at t={gtimes[k0]}, continued at t={t}')
        if it != k0:
            raise Violation('resume-iteration', f'export {i0} belongs to iteration {k0}, continued with iteration {it}')
        if ie != i0:
            raise Violation('resume-index', f'continued from export {i0} with export index {ie}')
        if not states:
            raise RuntimeError('no recorded state')
        for f in st:
            d = min(life.reldiff(x[f], st[f]) for x in states)
            if not d <= TOL_STATE:
                raise Violation('resume-state', f'{f} right after load_state({i0}) differs from the state that was exported by {d:.3e}')
    for n, (t, it, ie, s) in enumerate(tr.steps):
        k = k0 + 1 + n
        if k >= len(gtimes):
            raise Violation('extra-steps', f'continued at step {k0}, the run takes a step to t={t}, the uninterrupted one ends at t={gtimes[-1]}')
        a, b, c, gs = gold.steps[k - 1]
        if not close(t, a) or it != b or ie != c:
            raise Violation('clock', f'step {k}: uninterrupted (t, iteration, i_export)=({a}, {b}, {c}), continued ({t}, {it}, {ie})')
        for f in ('elev_2d', 'uv_2d') + (('salt_3d',) if 'salt_3d' in s else ()):
            d = life.reldiff(gs[f], s[f])
            if not d <= (TOL_TRAJ[f] if resume is not None else TOL_REPEAT):
                raise Violation('trajectory', f'{f} at t={t}: continued from export {i0} is off the uninterrupted run by {d:.3e}')
    if tr.outcome == 'end' and k0 + len(tr.steps) != len(gold.steps):
        raise Violation('stopped-early', f'continued run ends at t={tr.end[0]}, uninterrupted at t={gold.end[0]}')
    gex = [e for e in gold.exports if e[0] > i0]
    ex = [e for e in tr.exports if e[0] > i0]
    if any(a[0] != b[0] or not close(a[1], b[1]) for a, b in zip(gex, ex)) or (tr.outcome == 'end' and len(ex) != len(gex)):
        raise Violation('export-schedule', f'uninterrupted exports {gex}, continued from {i0}: {ex}')
    if rep is not None:
        if rep.outcome != 'end':
            raise Violation('run-failed', f'the run continued from export {i0} in another directory raised {rep.error!r}') from rep.error
        for (t, it, ie, a), (t2, it2, ie2, b) in zip(rep.steps, tr.steps):
            for f in a:
                d = life.reldiff(a[f], b[f])
                if not d <= TOL_REPEAT:
                    raise Violation('not-repeatable', f'{f} at t={t}: two continuations from export {i0} differ by {d:.3e}')
