"""
S03  The model clock: every run takes exactly the steps between its start and end time, and exports, callbacks
     and forcing updates happen exactly at the model times the options define, over any history of segments.

The time integrator is a stub (it only advances the clock of the forcing), everything else is the real solver.
"""
import math
import os
from fractions import Fraction as F

from .. import life, seams
from ..core import SimCrash, Violation

EPS = F(1, 100000)


def dec(x):
    return F(str(x))


def gen(rng, i, tier):
    dim = 2 if rng.random() < 0.8 else 3
    segs = []
    t = F(0)
    nseg = rng.choice([1, 1, 2, 2, 3, 4])
    resume = rng.random() < (0.35 if dim == 2 else 0.45)
    long = dim == 3 and not resume and rng.random() < 0.6
    if resume or long:
        nseg = 1
    nmax = 14 if dim == 2 else 8
    if long:
        nmax = 120
    for k in range(nseg):
        dt = rng.choice(['0.1', '0.3', '1', '2.5', '7', '30', '62.5', '900', '0.025', '33.3'])
        if dim == 3:
            dt = rng.choice(['0.5', '3', '30', '50', '0.1', '0.3', '0.7', '33.3'])
        m = rng.choice([F(1), F(1), F(2), F(2), F(3), F(5, 2), F(3, 2), F(4, 3), F(7, 4)])
        texp = dec(dt)*m
        texp = dec(f'{float(texp):.6f}')
        n = rng.randint(1, nmax)
        dur = n*dec(dt)
        if rng.random() < 0.3:
            dur -= dec(dt)*rng.choice([F(1, 4), F(1, 2), F(9, 10)])
        end = t + dur
        steps = 0
        tt = t
        while tt <= end - EPS:
            tt += dec(dt)
            steps += 1
        seg = {'dt': dt, 'texp': str(float(texp)), 'end': f'{float(end):.7f}',
               'how': rng.choice(['iterate', 'iterate', 'generator', 'external']) if dim == 2 else 'iterate',
               'initial': k == 0 or rng.random() < 0.15,
               'export_func': rng.random() < 0.8, 'forcing': rng.random() < 0.8}
        if rng.random() < 0.25 and dim == 2:
            seg['stop_after'] = rng.randint(1, steps + 1)
        segs.append(seg)
        k_done = steps
        if 'stop_after' in seg and seg['how'] != 'iterate':
            k_done = min(steps, max(seg['stop_after'] - 1, 0))
        t = t + k_done*dec(dt)
    if dim == 3:
        # the 3D solver fits the time step to the export interval (documented), one step for the whole history
        for seg in segs:
            seg.update(dt=segs[0]['dt'], texp=segs[0]['texp'])
            seg.pop('stop_after', None)
            if seg is not segs[0]:
                seg['initial'] = False
    sc = {'dim': dim, 'segments': segs, 'dates': rng.choice(['none', 'none', 'init', 'both']) if nseg == 1 else 'none',
            'tz_min': rng.choice([0, -480, 345]), 'exports': rng.choice(['none', 'hdf5', 'hdf5'])}
    if long:
        sc['exports'] = 'none'
    if resume:
        sc.update(exports='hdf5', dates=rng.choice(['none', 'init']))
        segs[0].pop('stop_after', None)
        if dim == 2:
            segs[0]['how'] = rng.choice(['iterate', 'generator'])
        sc['resume'] = []
        for _ in range(rng.choice([1, 1, 2])):
            r = {'back': rng.choice([0, 0, 1, 2, 5]), 'newdir': rng.random() < 0.5, 'more': rng.randint(1, 8)}
            if rng.random() < 0.45:
                r['i_export'] = rng.choice([0, 0, 3, 7])
            if rng.random() < 0.3:
                r['t'] = rng.choice(['0', '0', '1000', '12.3'])
            if rng.random() < 0.3:
                r['iteration'] = rng.choice([0, 0, 17])
            sc['resume'].append(r)
    return sc


def shrink(sc):
    import copy
    if len(sc['segments']) > 1:
        for j in range(len(sc['segments']) - 1, 0, -1):
            c = copy.deepcopy(sc)
            del c['segments'][j]
            yield c
    for key, val in (('dates', 'none'), ('tz_min', 0), ('exports', 'none')):
        if sc[key] != val:
            c = copy.deepcopy(sc)
            c[key] = val
            yield c
    for j, s in enumerate(sc['segments']):
        for key in ('export_func', 'forcing'):
            if s[key]:
                c = copy.deepcopy(sc)
                c['segments'][j][key] = False
                yield c
        if s['how'] != 'iterate':
            c = copy.deepcopy(sc)
            c['segments'][j]['how'] = 'iterate'
            yield c


class Reference:
    """The documented clock."""
    def __init__(self):
        self.t = F(0)
        self.it = 0
        self.iexp = 0
        self.file_ix = 0
        self.events = []
        self.files = {}
        self.steps_per_export = None

    def export(self, has_func):
        self.events.append(('export', self.iexp, self.t))
        self.files[self.file_ix] = self.t
        self.file_ix += 1
        if has_func:
            self.events.append(('export_func', self.iexp, self.t))

    def load(self, seg, dim, i, stored_t, r, files):
        """Continue from export i of a directory that holds these files."""
        dt, texp = dec(seg['dt']), dec(seg['texp'])
        if dim == 3:
            dt = texp/self.steps_per_export
        self.iexp = r.get('i_export', i)
        self.t = dec(r['t']) if 't' in r else stored_t
        self.it = r.get('iteration', None if 'i_export' in r else math.ceil((i*texp - EPS)/dt))
        self.nxt = (i + 1)*texp
        if self.iexp != i or abs(self.t + texp - self.nxt) >= dt:
            # not on the schedule of the stored run any more
            self.nxt = self.t + texp
        self.files = {} if r['newdir'] else dict(files)
        self.file_ix = self.iexp + (0 if r['newdir'] else 1)

    def segment(self, seg, dim, first, resumed=False):
        dt, texp, end = dec(seg['dt']), dec(seg['texp']), dec(seg['end'])
        if dim == 3:
            dt = texp/self.steps_per_export
        nxt = self.t + texp
        if resumed or (dim == 3 and not first):
            nxt = self.nxt
        t0 = self.t
        if seg['initial']:
            self.export(seg['export_func'])
        n = 0
        while self.t <= end - EPS:
            if seg['forcing']:
                self.events.append(('forcing', self.t + dt))
            self.events.append(('advance', self.t))
            if seg['how'] != 'iterate':
                self.events.append(('yield', self.t))
                if seg.get('stop_after') == n + 1:
                    # the iterator was abandoned before the clock moved on
                    return
            n += 1
            self.it += 1
            self.t = t0 + n*dt
            self.events.append(('step', self.t, self.it))
            if self.t >= nxt - EPS:
                self.iexp += 1
                nxt += texp
                self.export(seg['export_func'])
        self.nxt = nxt
        self.events.append(('end', self.t))


def same(a, b):
    if len(a) != len(b) or a[0] != b[0]:
        return False
    for x, y in zip(a[1:], b[1:]):
        if abs(float(x) - float(y)) > 1e-6*max(1.0, abs(float(y))):
            return False
    return True


def run(sc, ctx):
    W = life.World.get(2, 1, 2e3, 1e3)
    dim = sc['dim']
    disk = life.new_disk(ctx)
    out = os.path.join(disk.root, 'out')
    seg0 = sc['segments'][0]
    cfg = {'ts': 'CrankNicolson', 'dt': float(seg0['dt']), 'texp': float(seg0['texp']), 'tend': float(seg0['end']),
           'dates': sc['dates'], 'tz_min': sc['tz_min'], 'no_exports': sc['exports'] == 'none', 'salt': False,
           'hdf5': ['elev_2d'], 'vtk': []}
    if sc.get('resume'):
        cfg['hdf5'] = ['elev_2d', 'uv_2d'] + (['uv_3d'] if dim == 3 else [])
    M = life.Model2D if dim == 2 else life.Model3D
    try:
        ref = Reference()
        s, got = new_model(M, W, ctx, cfg, disk, out, ref)
        s._vsim_model.initial(s)
        for k, seg in enumerate(sc['segments']):
            if k:
                s.options.timestep = float(seg['dt'])
                s.options.simulation_export_time = float(seg['texp'])
                s.options.simulation_end_time = float(seg['end'])
                s.export_initial_state = bool(seg['initial'])
                if dim == 2:
                    s.create_timestepper()
            ref.segment(seg, dim, k == 0)
            if not run_segment(s, seg, got, ref, ctx):
                break
        verify(s, ref, got, sc, ctx, out)
        if sc['dates'] == 'both' and abs(float(s.options.simulation_end_time) - float(seg0['end'])) > 1e-5:
            raise Violation('end-date', f'end date gives end time {s.options.simulation_end_time}, expected {seg0["end"]}')
        for k, r in enumerate(sc.get('resume', [])):
            i = max(0, max(ref.files) - r['back'])
            while i not in ref.files:
                i -= 1
                if i < 0:
                    return
            src, files = out, dict(ref.files)
            if r['newdir']:
                out = os.path.join(disk.root, f'out{k}')
            ref.events = []
            ref.load(seg0, dim, i, files[i], r, files)
            seg = dict(seg0, end=f"{float(ref.t + r['more']*dec(seg0['texp'])/2):.7f}", initial=r['newdir'])
            cfg['tend'] = float(seg['end'])
            s, got = new_model(M, W, ctx, cfg, disk, out, ref)
            kw = {x: (float(r[x]) if x == 't' else r[x]) for x in ('i_export', 't', 'iteration') if x in r}
            s.load_state(i, **(dict(kw, outputdir=src) if r['newdir'] else kw))
            if ref.it is None:
                ref.it = s.iteration
            ctx.count('resumed')
            ctx.fault('restart')
            now = (s.iteration, s.i_export, float(s.simulation_time))
            if now[:2] != (ref.it, ref.iexp) or not same(('t', now[2]), ('t', ref.t)):
                raise Violation('load-counters', f'load_state({i}, {kw}) gives iteration, i_export, time {now}, expected {(ref.it, ref.iexp, float(ref.t))}')
            ref.segment(seg, dim, True, resumed=True)
            run_segment(s, seg, got, ref, ctx)
            verify(s, ref, got, sc, ctx, out)
    finally:
        seams.use(None)


def new_model(M, W, ctx, cfg, disk, out, ref):
    cfg3 = M is life.Model3D
    got = []
    seams.use(disk)
    m = M(W, ctx, cfg, disk)
    life.reset_logging()
    s = m.build(out, W.mesh)
    if ref.steps_per_export is None and cfg3:
        # the 3D solver fits the time step to the export interval (rounding may cost one more step)
        s.initialize()
        want = math.ceil(dec(cfg['texp'])/dec(cfg['dt']))
        n = round(cfg['texp']/s.dt)
        if abs(n*s.dt - cfg['texp']) > 1e-9*cfg['texp'] or not want <= n <= want + 1:
            raise Violation('fitted-step', f'time step {s.dt} for option {cfg["dt"]} and export interval {cfg["texp"]}')
        ref.steps_per_export = n
    s._isfrozen = False
    s._vsim_model = m
    life.add_recorder(s, lambda: got.append(('step', s.simulation_time, s.iteration)), 'timestep')
    life.add_recorder(s, lambda: got.append(('export', s.i_export, s.simulation_time)), 'export')
    return s, got


def run_segment(s, seg, got, ref, ctx):
    """True when the counters agree afterwards."""
    if not s._initialized:
        s.initialize()

    def advance(t, update_forcings=None, update_forcings3d=None):
        if update_forcings is not None:
            update_forcings(t + s.dt)
        got.append(('advance', t))
    s.timestepper.advance = advance
    kw = {}
    if seg['forcing']:
        kw['update_forcings'] = lambda t: got.append(('forcing', t))
    if seg['export_func']:
        kw['export_func'] = lambda: got.append(('export_func', s.i_export, s.simulation_time))
    if seg['how'] == 'iterate':
        s.iterate(**kw)
        got.append(('end', s.simulation_time))
    else:
        it = s.create_iterator(**kw)
        n = 0
        while True:
            try:
                t = next(it)
            except StopIteration as e:
                got.append(('end', s.simulation_time))
                if seg['how'] == 'external' and e.value is not None and not same(('v', e.value), ('v', s.simulation_time)):
                    raise Violation('iterator-value', f'iterator returned {e.value}, model time is {s.simulation_time}') from e
                break
            got.append(('yield', t))
            n += 1
            if seg.get('stop_after') == n:
                it.close()
                ctx.fault('iterator_abandoned')
                break
            if n > 500:
                raise Violation('runaway', f'more than 500 steps in segment {seg}')
    return (s.iteration, s.i_export) == (ref.it, ref.iexp) and same(('t', s.simulation_time), ('t', ref.t))


def verify(s, ref, got, sc, ctx, out):
    for j, (a, b) in enumerate(zip(ref.events, got)):
        if not same(a, b):
            raise Violation(f'{a[0]}-vs-{b[0]}', f'event {j}: expected {tuple(map(str, a))}, observed {b}; before: {got[max(0, j-4):j]}')
    if len(ref.events) != len(got):
        n = min(len(ref.events), len(got))
        raise Violation('event-count', f'expected {len(ref.events)} events, observed {len(got)}; '
                        f'expected next {[tuple(map(str, e)) for e in ref.events[n:n+2]]}, observed next {got[n:n+2]}')
    if (s.iteration, s.i_export) != (ref.it, ref.iexp):
        raise Violation('counters', f'expected iteration, i_export {(ref.it, ref.iexp)}, observed {(s.iteration, s.i_export)}')
    ctx.ev('events', [tuple(float(x) if not isinstance(x, str) else x for x in e) for e in got])
    ctx.count('steps', sum(e[0] == 'step' for e in ref.events))
    ctx.count('exports', sum(e[0] == 'export' for e in ref.events))
    ctx.count('segments', len(sc['segments']))
    ctx.sim_time += float(ref.t)
    ctx.nontrivial |= ref.it > 1
    d0 = seams.current
    seams.use(None)
    if sc['exports'] != 'none':
        d = os.path.join(out, 'hdf5')
        have = sorted(f for f in os.listdir(d) if f.startswith('Elevation2d'))
        want = [f'Elevation2d_{i:05d}.h5' for i in sorted(ref.files)]
        if have != want:
            raise Violation('files', f'expected {want}, on disk {have}')
        import h5py
        for i, t in ref.files.items():
            with h5py.File(os.path.join(d, f'Elevation2d_{i:05d}.h5'), 'r') as f:
                ft = f.attrs.get('time')
                if ft is not None and not same(('t', ft), ('t', t)):
                    raise Violation('file-time', f'export file {i} carries time {ft}, expected {float(t)}')
    elif os.path.isdir(out) and any(f.endswith(('.h5', '.pvd')) for _, _, fs in os.walk(out) for f in fs):
        raise Violation('files', 'no_exports is set but files were written')
    seams.use(d0)
