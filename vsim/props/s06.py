"""
S06  Every export holds the field as it was, under its own number, and leaves the model alone.
"""
import itertools
import os
import re

import numpy as np

from .. import life, seams
from ..core import SimCrash, Violation

SPACES = {'cg1': ('CG', 1, 0), 'dg1': ('DG', 1, 0), 'dg0': ('DG', 0, 0), 'cg2': ('CG', 2, 0),
          'vcg1': ('CG', 1, 1), 'vdg1': ('DG', 1, 1)}


def gen(rng, i, tier):
    if rng.random() < (0.10 if tier == 'quick' else 0.15):
        return gen_solver(rng, tier)
    nm = rng.choice([1, 1, 2])
    labels = ['alpha', 'beta', 'gamma', 'delta']
    managers = []
    for m in range(nm):
        n = rng.randint(1, 3)
        managers.append({'type': rng.choice(['vtk', 'hdf5', 'hdf5']),
                         'fields': [{'label': lab, 'space': rng.choice(sorted(SPACES)),
                                     'preproc': rng.random() < 0.3} for lab in rng.sample(labels, n)],
                         'start': rng.choice([0, 0, 0, 3]), 'via_init': rng.random() < 0.6,
                         'with_time': rng.random() < 0.7, 'date': rng.choice([None, '2011-02-03T04:05:06+00:00']),
                         'same_dir': rng.random() < 0.2})
    ops = []
    t = rng.choice([0.0, 0.1, 1e6])
    for _ in range(rng.randint(3, 16)):
        k = rng.choice(['export']*6 + ['set']*3 + ['seek', 'seek', 'load', 'add', 'rebuild', 'fail', 'fail', 'fail', 'preproc_fail', 'at'])
        m = rng.randrange(nm)
        if k == 'export':
            t += rng.choice([0.1, 12.5, 900.0, 1/3])
            ops.append({'op': 'export', 'm': m, 't': t})
        elif k == 'set':
            ops.append({'op': 'set', 'm': m, 'f': rng.randint(0, 3), 'seed': rng.randint(0, 10**6)})
        elif k == 'seek':
            ops.append({'op': 'seek', 'm': m, 'to': rng.choice([0, 1, 7, 41, 123456])})
        elif k == 'load':
            ops.append({'op': 'load', 'm': m, 'back': rng.randint(0, 3), 'f': rng.randint(0, 3)})
        elif k == 'at':
            ops.append({'op': 'at', 'm': m, 'f': rng.randint(0, 3), 'ix': rng.choice([0, 2, 9, 77]), 't': t})
        elif k == 'add':
            ops.append({'op': 'add', 'm': m, 'label': 'extra%d' % len(ops), 'space': rng.choice(sorted(SPACES)), 'start': rng.choice([0, 2]),
                        'type': rng.choice(['vtk', 'hdf5']), 'preproc': rng.random() < 0.4})
        elif k == 'rebuild':
            ops.append({'op': 'rebuild', 'm': m})
        elif k == 'preproc_fail':
            ops.append({'op': 'preproc_fail', 'm': m, 'exc': rng.choice(['TypeError', 'ValueError']), 't': t})
        else:
            ops.append({'op': 'fail', 'm': m, 't': t + 0.05, 'seek': rng.random() < 0.5,
                        'faults': [{'at': rng.randint(0, 22), 'kind': rng.choice(['error', 'error', 'short', 'crash', 'torn']),
                                    'match': rng.choice(['', '', 'ck', 'write', 'open', 'replace']), 'frac': rng.random(),
                                    'errno': rng.choice(['EIO', 'ENOSPC'])}]})
    return {'mode': 'direct', 'managers': managers, 'ops': ops}


def gen_solver(rng, tier):
    dim = rng.choice([2, 3, 3])
    ops = []
    for _ in range(rng.randint(3, 7)):
        k = rng.choice(['export', 'export', 'set', 'fail', 'fail', 'preproc_fail'])
        op = {'op': k, 'seed': rng.randint(0, 10**6)}
        if k == 'fail':
            op['faults'] = [{'at': rng.randint(0, 60), 'kind': rng.choice(['error', 'short']), 'match': rng.choice(['', 'ck', 'open', 'write']),
                             'frac': rng.random(), 'errno': rng.choice(['EIO', 'ENOSPC'])}]
        if k == 'preproc_fail':
            op['exc'] = rng.choice(['TypeError', 'ValueError'])
        ops.append(op)
    if ops[-1]['op'] != 'export':
        ops.append({'op': 'export', 'seed': 1})
    return {'mode': 'solver', 'dim': dim, 'ops': ops, 'date': rng.random() < 0.5, 'start': rng.choice([0, 4])}


def valid(sc):
    return bool(sc['ops']) and (sc['mode'] == 'solver' or bool(sc['managers']))


def space(mesh, name):
    import thetis as th
    fam, deg, vec = SPACES[name]
    return th.get_functionspace(mesh, fam, deg, vector=bool(vec))


def fill(f, seed):
    r = np.random.RandomState(seed)
    f.dat.data[...] = r.uniform(-2, 2, size=f.dat.data_ro.shape)


def visu(f):
    """What a visualisation file of f must hold: (points, values), in the linear space of the same continuity."""
    import thetis as th
    V = f.function_space()
    mesh = V.mesh()
    fam = 'CG' if V.ufl_element().embedded_subdegree > 0 and is_cont(V) else 'DG'
    if V.value_size > 1:
        P = th.get_functionspace(mesh, fam, 1, fam, 1, vector=True, dim=V.value_size)
    else:
        P = th.get_functionspace(mesh, fam, 1, fam, 1)
    X = th.get_functionspace(mesh, fam, 1, fam, 1, vector=True, dim=mesh.geometric_dimension)
    key = (id(f), f.name())
    g = th.Function(P).interpolate(f)
    x = th.Function(X).interpolate(th.SpatialCoordinate(mesh))
    _ = key
    return np.array(x.dat.data_ro), np.array(g.dat.data_ro)


def is_cont(V):
    from firedrake.output.vtk_output import is_cg
    return is_cg(V)


def pad3(a):
    a = a.reshape(len(a), -1)
    if a.shape[1] in (1, 3):
        return a
    return np.hstack([a, np.zeros((len(a), 3 - a.shape[1]))])


def read_vtu(path):
    """Independent reader of the appended raw format: (points, {name: array})."""
    raw = open(path, 'rb').read()
    k = raw.find(b'<AppendedData')
    if k < 0 or b'</VTKFile>' not in raw[-200:]:
        raise ValueError('incomplete vtu file')
    head = raw[:k].decode()
    base = raw.index(b'_', k) + 1
    out = {}
    pts = None
    types = {'Float64': '<f8', 'Float32': '<f4', 'Int32': '<i4', 'UInt8': 'u1', 'Int64': '<i8'}
    for m in re.finditer(r'<DataArray ([^>]*)>', head):
        at = dict(re.findall(r'(\w+)="([^"]*)"', m.group(1)))
        off = base + int(at['offset'])
        n = int(np.frombuffer(raw, '<u4', 1, off)[0])
        a = np.frombuffer(raw, types[at['type']], n//np.dtype(types[at['type']]).itemsize, off + 4)
        nc = int(at.get('NumberOfComponents') or 1)
        if nc > 1:
            a = a.reshape(-1, nc)
        if at['Name'] in ('connectivity', 'offsets', 'types'):
            continue
        if pts is None:
            pts = a
        else:
            out[at['Name']] = a
    return pts, out


def read_pvd(path):
    txt = open(path, 'rb').read().decode()
    if not txt.rstrip().endswith('</VTKFile>'):
        raise ValueError('incomplete pvd file')
    return [(a, b) for a, b in re.findall(r'<DataSet timestep="([^"]*)" file="([^"]*)"', txt)]


class Ref:
    """What must be on the disk for one exporter."""
    def __init__(self, kind, label, function, outdir, fname, short, nxt, with_time, date):
        self.kind, self.label, self.f, self.outdir, self.fname, self.short = kind, label, function, outdir, fname, short
        self.nxt = nxt
        self.files = {}      # index -> (time, data)
        self.doubt = {}      # index -> data that may be there instead (a failed or interrupted export)
        self.entries = []    # pvd
        self.pvd_doubt = False
        self.with_time, self.date = with_time, date

    def snapshot(self):
        if self.kind == 'hdf5':
            return np.array(self.f.dat.data_ro, copy=True)
        return visu(self.f)

    def path(self, ix):
        if self.kind == 'hdf5':
            return os.path.join(self.outdir, f'{self.fname}_{ix:05d}.h5')
        return os.path.join(self.outdir, self.fname, self.fname, f'{self.fname}_{ix}.vtu')

    def check(self, ix, when):
        t, want = self.files[ix]
        p = self.path(ix)
        what = f'{self.label} export {ix} ({when})'
        if not os.path.isfile(p):
            raise Violation('export-missing', f'{what}: {os.path.basename(p)} is not there', sig=f'export-missing {self.kind}')
        alts = [want] + ([self.doubt[ix]] if ix in self.doubt else [])
        if self.kind == 'hdf5':
            from firedrake import CheckpointFile
            with CheckpointFile(p, 'r') as f:
                g = f.load_function(self.f.function_space().mesh(), self.f.name())
                try:
                    tt = f.get_attr('/', 'time')
                except KeyError:
                    tt = None
                try:
                    dd = f.get_attr('/', 'initial_time_iso')
                except KeyError:
                    dd = None
            got = np.array(g.dat.data_ro)
            if not any(np.array_equal(got, a) or life.reldiff(got, a) < 1e-13 for a in alts):
                raise Violation('export-content', f'{what}: stored values differ by {life.reldiff(got, want):.2e} from the field when it was exported', sig='export-content hdf5')
            if self.with_time:
                if ix not in self.doubt and (tt is None or float(tt) != float(t)):
                    raise Violation('export-time', f'{what}: time stamp {tt}, exported at {t}', sig='export-time')
                if self.date is not None and dd != self.date:
                    raise Violation('export-date', f'{what}: initial date {dd}, expected {self.date}', sig='export-date')
        else:
            pts, arrs = read_vtu(p)
            if self.short not in arrs:
                raise Violation('export-name', f'{what}: array names {sorted(arrs)}, expected {self.short}', sig='export-name')
            got = pad3(arrs[self.short])
            ok = False
            for x, v in alts:
                ok |= (pts.shape == pad3(x).shape and np.allclose(pts, pad3(x), rtol=1e-12, atol=1e-9) and got.shape == pad3(v).shape
                       and np.allclose(got, pad3(v), rtol=1e-9, atol=1e-11))
            if not ok:
                raise Violation('export-content', f'{what}: visualised values differ from the field when it was exported', sig='export-content vtk')


def check_collection(r, when):
    """The collection lists each visualised export of this life under its own number, in order."""
    if r.kind != 'vtk' or r.pvd_doubt:
        return
    p = os.path.join(r.outdir, r.fname, r.fname + '.pvd')
    got = read_pvd(p)
    want = [(str(ix), f'{r.fname}_{ix}.vtu') for ix in r.entries]
    got = [(a, os.path.basename(b)) for a, b in got]
    if got != want:
        raise Violation('collection', f'{r.label} ({when}): collection lists {got}, exported were {want}', sig='collection')


class Boom:
    """A preprocessor that recomputes its field, or fails on demand."""
    def __init__(self, f):
        self.f, self.n, self.exc = f, 0, None

    def __call__(self):
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e('preprocessing failed')
        self.n += 1
        fill(self.f, 1000 + self.n)


def run(sc, ctx):
    if sc['mode'] == 'solver':
        return run_solver(sc, ctx)
    import thetis as th
    from thetis.exporter import ExportManager
    W = life.World.get()
    mesh = W.mesh
    disk = life.new_disk(ctx)
    meta = {}
    ms = []
    count = itertools.count()

    def new_field(lab, spc, m):
        f = th.Function(space(mesh, spc), name=f'{lab}{m}')
        fill(f, next(count))
        return f

    class M:
        pass

    def build(k, cfg, fresh):
        m = M() if fresh else ms[k]
        if fresh:
            m.dir = os.path.join(disk.root, 'm0' if cfg['same_dir'] else f'm{k}')
            m.fields, m.refs, m.pre, m.cfg, m.extra = {}, {}, {}, cfg, []
            for d in cfg['fields']:
                m.fields[d['label']] = new_field(d['label'], d['space'], k)
                if d['preproc']:
                    m.pre[d['label']] = Boom(m.fields[d['label']])
        mt = {d['label']: {'shortname': f"{d['label']} short", 'filename': f"File{d['label']}{k}"} for d in cfg['fields']}
        nxt = cfg['start']
        if not fresh:
            nxt = max([r.nxt for r in m.refs.values()] or [0])
        kw = {}
        if cfg['via_init']:
            if m.pre:
                kw['preproc_funcs'] = {a: b for a, b in m.pre.items() if a in mt}
            m.man = ExportManager(m.dir, list(mt), m.fields, mt, export_type=cfg['type'], next_export_ix=nxt,
                                  include_time=cfg['with_time'], initial_time=_date(cfg['date']), **kw)
        else:
            m.man = ExportManager(m.dir, [], {}, mt, export_type=cfg['type'], include_time=cfg['with_time'], initial_time=_date(cfg['date']))
            for lab in mt:
                m.man.add_export(lab, m.fields[lab], export_type=cfg['type'], next_export_ix=nxt, preproc_func=m.pre.get(lab))
        old = m.refs
        m.refs = {}
        for lab in mt:
            r = Ref(cfg['type'], lab, m.fields[lab], m.dir, mt[lab]['filename'], mt[lab]['shortname'], nxt, cfg['with_time'], cfg['date'])
            if lab in old:
                r.files, r.doubt = old[lab].files, old[lab].doubt
            m.refs[lab] = r
        return m

    for k, cfg in enumerate(sc['managers']):
        ms.append(build(k, cfg, True))
        ctx.ev('manager', k, cfg['type'], [d['label'] for d in cfg['fields']])

    def everything():
        return [(f'{k}/{lab}', f) for k, m in enumerate(ms) for lab, f in m.fields.items()]

    def others_unchanged(before, m, when, started):
        for name, f in everything():
            now = np.array(f.dat.data_ro)
            lab = name.split('/', 1)[1]
            owner = ms[int(name.split('/', 1)[0])]
            if owner is m and lab in m.pre and started:
                continue
            if not np.array_equal(before[name], now):
                raise Violation('export-harm', f'field {name} was changed by an export ({when})', sig='export-harm')

    def do_export(k, m, t, faults=None, exc=None):
        before = {n: np.array(f.dat.data_ro) for n, f in everything()}
        ran = {lab: p.n for lab, p in m.pre.items()}
        at_start = {lab: r.snapshot() for lab, r in m.refs.items()}
        armed = None
        if exc and m.pre:
            armed = sorted(m.pre)[0]
            m.pre[armed].exc = getattr(__builtins__, exc, None) if not isinstance(__builtins__, dict) else __builtins__[exc]
        disk.fired = []
        if faults:
            disk.arm(faults)
        err = None
        try:
            m.man.export(time=t)
        except SimCrash:
            err = 'crash'
        except Exception as e:
            err = e
            if not disk.fired and armed is None:
                raise
        finally:
            fired = list(disk.fired)
            disk.disarm()
            for p in m.pre.values():
                p.exc = None
        seams.use(None)
        try:
            others_unchanged(before, m, f'outcome {err!r}', True)
            # which fields were written before the failure? The numbers tell.
            for lab, r in m.refs.items():
                snap = r.snapshot() if lab in m.pre else at_start[lab]
                e = m.man.exporters[lab]
                if err is None:
                    if lab in m.pre and m.pre[lab].n != ran[lab] + 1:
                        raise Violation('preproc', f'{lab}: preprocessor ran {m.pre[lab].n - ran[lab]} times in one export', sig='preproc')
                    r.files[r.nxt] = (t, snap)
                    r.doubt.pop(r.nxt, None)
                    r.entries.append(r.nxt)
                    r.nxt += 1
                elif err == 'crash':
                    if r.nxt in r.files:
                        r.doubt[r.nxt] = snap
                    r.pvd_doubt = True
                elif e.next_export_ix == r.nxt + 1:
                    r.files[r.nxt] = (t, snap)
                    r.doubt.pop(r.nxt, None)
                    r.entries.append(r.nxt)
                    r.nxt += 1
                else:
                    # not (completely) exported: keeps its number
                    if r.nxt in r.files:
                        if r.kind == 'hdf5':
                            r.doubt[r.nxt] = snap
                        else:
                            r.files.pop(r.nxt)    # the file may have been cut while being rewritten
                    if any('.pvd' in f[1] for f in fired):
                        r.pvd_doubt = True
                if err != 'crash' and e.next_export_ix != r.nxt:
                    raise Violation('export-number', f'{lab}: next export number {e.next_export_ix}, expected {r.nxt} (outcome {err!r})', sig='export-number')
            if err is not None and armed is not None:
                if type(err).__name__ != exc:
                    raise Violation('masked', f'the preprocessor raised {exc}, the caller got {err!r}', sig='masked')
            if fired and err is None:
                raise Violation('swallowed', f'disk fault {fired} but the export reported success', sig='swallowed')
        finally:
            seams.use(disk)
        ctx.ev('export', k, float(t), type(err).__name__ if isinstance(err, Exception) else err, {a: r.nxt for a, r in m.refs.items()})
        return err

    def full_check(m, when):
        seams.use(None)
        try:
            for r in m.refs.values():
                for ix in sorted(r.files):
                    r.check(ix, when)
                check_collection(r, when)
        finally:
            seams.use(disk)

    nexp = 0
    for op in sc['ops']:
        k = op['m']
        if k >= len(ms):
            continue
        m = ms[k]
        o = op['op']
        labs = sorted(m.fields)
        if o == 'export':
            do_export(k, m, op['t'])
            nexp += 1
        elif o == 'set':
            f = m.fields[labs[op['f'] % len(labs)]]
            fill(f, op['seed'])
        elif o == 'seek':
            m.man.set_next_export_ix(op['to'])
            for r in m.refs.values():
                r.nxt = op['to']
        elif o == 'at':
            lab = labs[op['f'] % len(labs)]
            r = m.refs[lab]
            if r.kind == 'hdf5':
                m.man.exporters[lab].export_as_index(op['ix'], m.fields[lab], time=op['t'])
                r.files[op['ix']] = (op['t'], r.snapshot())
                r.doubt.pop(op['ix'], None)
                r.nxt = op['ix'] + 1
        elif o == 'load':
            lab = labs[op['f'] % len(labs)]
            r = m.refs[lab]
            if r.kind == 'hdf5' and r.files:
                ix = sorted(r.files)[-1 - min(op['back'], len(r.files) - 1)]
                t, want = r.files[ix]
                g = m.fields[lab]
                keep = np.array(g.dat.data_ro)
                fill(g, 5)
                md = m.man.exporters[lab].load(ix, g)
                got = np.array(g.dat.data_ro)
                g.dat.data[...] = keep
                alts = [want] + ([r.doubt[ix]] if ix in r.doubt else [])
                if not any(life.reldiff(got, a) < 1e-13 for a in alts):
                    raise Violation('load', f'{lab}: loading export {ix} gives values {life.reldiff(got, want):.2e} off', sig='load')
                if r.with_time and ix not in r.doubt and (md['time'] is None or float(md['time']) != float(t)):
                    raise Violation('load-time', f'{lab}: loading export {ix} reports time {md["time"]}, exported at {t}', sig='load-time')
                wd = _date(r.date) if r.with_time else None
                if md['initial_time_iso'] != wd:
                    raise Violation('load-date', f'{lab}: loading export {ix} reports date {md["initial_time_iso"]}, exported with {wd}', sig='load-date')
                if m.man.exporters[lab].next_export_ix != r.nxt:
                    raise Violation('export-number', f'{lab}: loading changed the next export number', sig='export-number load')
                ctx.ev('load', k, lab, ix)
        elif o == 'add':
            f = new_field(op['label'], op['space'], k)
            m.fields[op['label']] = f
            if op['preproc']:
                m.pre[op['label']] = Boom(f)
            m.man.add_export(op['label'], f, export_type=op['type'], next_export_ix=op['start'], shortname='s ' + op['label'], filename='F' + op['label'] + str(k),
                             preproc_func=m.pre.get(op['label']))
            m.refs[op['label']] = Ref(op['type'], op['label'], f, m.dir, 'F' + op['label'] + str(k), 's ' + op['label'], op['start'],
                                      m.cfg['with_time'], m.cfg['date'])
        elif o == 'rebuild':
            # a new process takes over the directory
            full_check(m, 'before a new manager takes over')
            for lab in [x for x in m.fields if x.startswith('extra')]:
                m.fields.pop(lab)
                m.pre.pop(lab, None)
                m.refs.pop(lab)
            build(k, m.cfg, False)
            ctx.ev('rebuild', k)
        elif o == 'preproc_fail':
            err = do_export(k, m, op['t'], exc=op['exc'])
            if err is not None:
                ctx.fault('preproc_' + op['exc'])
        elif o == 'fail':
            err = do_export(k, m, op['t'], faults=op['faults'])
            if err is not None:
                ctx.nontrivial = True
            if err == 'crash':
                disk.restart()
                for mm in ms:
                    # every manager of the dead process is gone
                    for lab in [x for x in mm.fields if x.startswith('extra')]:
                        mm.fields.pop(lab)
                        mm.pre.pop(lab, None)
                        mm.refs.pop(lab)
                    if mm is m and m.cfg['type'] == 'vtk':
                        for r in m.refs.values():
                            r.files.pop(r.nxt, None)
                    nx = {lab: r.nxt for lab, r in mm.refs.items()}
                    build(ms.index(mm), mm.cfg, False)
                    for lab in mm.refs:
                        mm.man.exporters[lab].set_next_export_ix(nx[lab])
                        mm.refs[lab].nxt = nx[lab]
                full_check(m, 'after a crash')
            elif err is not None and op['seek']:
                to = min(r.nxt for r in m.refs.values())
                m.man.set_next_export_ix(to)
                for r in m.refs.values():
                    r.nxt = to
                # the documented way to write this export again
                do_export(k, m, op['t'])
                ctx.probe('retried_export')
            if err is not None:
                full_check(m, 'after a failed export')
    for m in ms:
        full_check(m, 'at the end')
    if nexp >= 2:
        ctx.nontrivial = True
    ctx.count('exports', nexp)
    ctx.sim_time += max([op.get('t', 0) for op in sc['ops']] + [0])


def _date(x):
    import datetime
    return None if x is None else datetime.datetime.fromisoformat(x)


# --- whole solvers ----------------------------------------------------------

_cache = {}


def run_solver(sc, ctx):
    import datetime
    import thetis as th
    W = life.World.get()
    disk = life.new_disk(ctx)
    life.reset_logging()
    dim = sc['dim']
    cfg = {'ts': 'CrankNicolson', 'dt': 10.0, 'dt2d': 10.0, 'texp': 10.0, 'tend': 100.0, 'force': 'none',
           'dates': 'init' if sc['date'] else 'none'}
    out = os.path.join(disk.root, 'o')
    if dim == 2:
        names = {'elev_2d': ('Elevation2d', 'Elevation'), 'uv_2d': ('Velocity2d', 'Depth averaged velocity'), 'foo_2d': ('Foo2d', 'Foo')}
        cfg['vtk'] = ['elev_2d', 'uv_2d', 'foo_2d']
        cfg['hdf5'] = ['foo_2d', 'uv_2d', 'elev_2d']
        m = life.Model2D(W, ctx, cfg, disk)
    else:
        names = {'elev_2d': ('Elevation2d', 'Elevation'), 'uv_2d': ('Velocity2d', 'Depth averaged velocity'), 'uv_3d': ('Velocity3d', 'Horizontal velocity'),
                 'salt_3d': ('Salinity3d', 'Salinity'), 'w_3d': ('VertVelo3d', 'Vertical velocity'), 'foo_2d': ('Foo2d', 'Foo')}
        cfg['vtk'] = ['uv_3d', 'salt_3d', 'foo_2d', 'elev_2d']
        cfg['hdf5'] = ['elev_2d', 'uv_2d', 'uv_3d', 'foo_2d', 'salt_3d']
        m = life.Model3D(W, ctx, cfg, disk)
    s = m.build(out, W.mesh)
    P1 = th.get_functionspace(W.mesh, 'CG', 1)
    foo = th.Function(P1, name='foo_2d')
    pre = Boom(foo)
    s.add_new_field(foo, 'foo_2d', 'Foo', 'Foo2d', preproc_func=pre)
    s.initialize()
    s.assign_initial_conditions(elev=th.Constant(0.1))
    calls = []
    life.add_recorder(s, lambda: calls.append(float(s.simulation_time)), 'export')
    s.i_export = sc['start']
    for e in s.exporters.values():
        e.set_next_export_ix(sc['start'])
    fields = {k: f for k, f in s.fields.items() if hasattr(f, 'dat') and k != 'foo_2d'}
    expected = {}     # (kind, field, index) -> (time, data)
    date = life.T0.isoformat() if sc['date'] else None

    def data(f):
        d = f.dat.data_ro
        return [np.array(x) for x in d] if isinstance(d, tuple) else [np.array(d)]

    def value(lab):
        if lab == 'uv_3d':
            g = th.Function(s.fields.uv_3d.function_space(), name='uv_3d')
            g.dat.data[...] = s.fields.uv_3d.dat.data_ro + s.fields.uv_dav_3d.dat.data_ro
            return g
        return s.fields[lab]

    def refs():
        r = {}
        for kind in ('vtk', 'hdf5'):
            for lab in cfg[kind]:
                d = out if kind == 'vtk' else os.path.join(out, 'hdf5')
                r[kind, lab] = Ref(kind, lab, s.fields[lab], d, names[lab][0], short[lab], 0, True, date)
        return r
    from thetis.field_defs import field_metadata
    short = {lab: (field_metadata[lab]['shortname'] if lab != 'foo_2d' else 'Foo') for lab in names}
    R = refs()
    t = 0.0
    for j, op in enumerate(sc['ops']):
        t += 10.0/3
        s.simulation_time = t
        if op['op'] == 'set':
            seedr = op['seed']
            for lab in ('elev_2d', 'uv_2d') + (() if dim == 2 else ('uv_3d', 'salt_3d', 'uv_dav_3d')):
                seedr += 1
                fill(s.fields[lab], seedr)
            continue
        before = {k: data(f) for k, f in fields.items()}
        ncall, npre = len(calls), pre.n
        ix = {(kind, lab): s.exporters[kind].exporters[lab].next_export_ix for kind, lab in R}
        disk.fired = []
        if op['op'] == 'fail':
            disk.arm(op['faults'])
        if op['op'] == 'preproc_fail':
            pre.exc = {'TypeError': TypeError, 'ValueError': ValueError}[op['exc']]
        err = None
        try:
            s.export(time=t)
        except Exception as e:
            err = e
            if not disk.fired and op['op'] != 'preproc_fail':
                raise
        fired = list(disk.fired)
        disk.disarm()
        pre.exc = None
        seams.use(None)
        try:
            ctx.ev('solver-export', j, type(err).__name__ if err else None)
            # 1. the model state is untouched, whatever happened
            for k, f in fields.items():
                for a, b in zip(before[k], data(f)):
                    if life.reldiff(a, b) > 1e-13 and np.abs(a - b).max() > 1e-13:
                        raise Violation('export-harm', f'{dim}D: field {k} was changed by an export (outcome {err!r})', sig=f'export-harm {k}')
            if err is not None:
                ctx.nontrivial = True
            if op['op'] == 'preproc_fail':
                ctx.fault('preproc_' + op['exc'])
                if err is None or type(err).__name__ != op['exc']:
                    raise Violation('masked', f'the preprocessor raised {op["exc"]}, the caller got {err!r}', sig='masked')
            if fired and err is None:
                raise Violation('swallowed', f'disk fault {fired} but the export reported success', sig='swallowed')
            if len(calls) != ncall + 1:
                raise Violation('callbacks', f'an export evaluated the export callbacks {len(calls) - ncall} times', sig='callbacks')
            # 2. what was written
            for (kind, lab), r in R.items():
                now = s.exporters[kind].exporters[lab].next_export_ix
                adv = now - ix[kind, lab]
                if adv > 1 or adv < 0 or (err is None and adv != 1):
                    raise Violation('export-number', f'{kind} {lab}: one export (outcome {err!r}) moved the export number from {ix[kind, lab]} to {now}', sig='export-number solver')
                if adv == 1:
                    r.f = value(lab)
                    if lab == 'foo_2d' and kind == 'vtk':
                        # preprocessed again for the second manager
                        r.f = th.Function(P1, name='foo_2d')
                        fill(r.f, 1000 + npre + 1)
                    snap = r.snapshot()
                    r.files[ix[kind, lab]] = (t, snap)
                    r.doubt.pop(ix[kind, lab], None)
                    r.entries.append(ix[kind, lab])
                elif any('.pvd' in f[1] for f in fired):
                    r.pvd_doubt = True
            if err is not None:
                # the documented way to write an export again
                for e in s.exporters.values():
                    e.set_next_export_ix(min(ix.values()))
                for r in R.values():
                    keep = min(ix.values())
                    if keep in r.files:
                        r.files.pop(keep)
        finally:
            seams.use(disk)
    seams.use(None)
    for (kind, lab), r in R.items():
        r.f = s.fields[lab]
        for k in sorted(r.files):
            r.check(k, 'at the end')
        if dim == 2 or kind == 'vtk':
            check_collection(r, 'at the end')
    if len(sc['ops']) >= 2:
        ctx.nontrivial = True
    ctx.sim_time += t
