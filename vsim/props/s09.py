"""
S09  Forcing data read from files is a function of model time alone: the linear interpolation between the stored
     time stamps around it, whatever was asked before, failed before, or was restarted.
"""
import bisect
import datetime
import os
from fractions import Fraction as F

import numpy as np

from .. import life, seams
from ..core import Violation

UTC = datetime.timezone.utc


def gen(rng, i, tier):
    kind = 'atm' if i % 12 == 5 else ('fields' if i % 12 == 11 else rng.choice(['series', 'series', 'series', 'daily', 'forecast']))
    step = rng.choice([60, 600, 3600, 10800, 21600, 900])
    n = rng.randint(3, 30)
    if kind == 'daily':
        step, n = 86400, rng.randint(2, 9)
    # stamps in seconds after the reference date
    t, stamps = rng.choice([0, 0, 86400 if kind == 'daily' else -7200, 86400]), []
    for k in range(n):
        stamps.append(t)
        gap = step
        if kind in ('series', 'daily') and rng.random() < 0.15:
            gap = step*rng.choice([2, 3, 5])
        if kind == 'series' and rng.random() < 0.1:
            gap = step*F(rng.choice([1, 3]), 4)
        t = t + gap
    stamps = [float(s) for s in stamps]
    # contiguous partition into files
    cuts = sorted(rng.sample(range(1, n), rng.randint(0, min(4, n - 1)))) if kind not in ('daily', 'forecast') else []
    sc = {'kind': kind, 'stamps': stamps, 'cuts': cuts, 'vars': rng.choice([1, 1, 2, 3]), 'shape': rng.choice(['scalar', 'scalar', 'vector', 'vector-t-last']),
          'order': rng.choice(['sorted', 'reversed', 'shuffled']), 'seed': rng.randint(0, 10**6),
          'units': [rng.choice(['seconds', 'hours', 'days', 'minutes']) for _ in range(len(cuts) + 1)],
          'ref': [rng.choice([[2000, 1, 1, 0], [1970, 1, 1, 0], [2006, 4, 30, 12], [1858, 11, 17, 0]]) for _ in range(len(cuts) + 1)],
          'ref_tz': [rng.choice(['', '', '+02:00', '-08:00']) for _ in range(len(cuts) + 1)],
          'init': [2006, 5, rng.randint(1, 3), rng.choice([0, 0, 6, 23])], 'init_tz': rng.choice([0, 0, -480, 345, 60]),
          'scalars': rng.random() < 0.3, 'center_hour': rng.choice([0, 12, 18])}
    if kind == 'forecast':
        per = rng.choice([4, 8, 24])
        sc.update(per=per, extra=rng.choice([1, 3, per]), nfiles=rng.randint(1, 4), step=86400//per)
        sc['stamps'] = [float(k*(86400//per)) for k in range(per*sc['nfiles'])]
    lo, hi = sc['stamps'][0], sc['stamps'][-1]
    q = []
    for _ in range(rng.randint(3, 25)):
        r = rng.random()
        s = rng.choice(sc['stamps'])
        if r < 0.45:
            t = rng.uniform(lo, hi)
        elif r < 0.6:
            t = s
        elif r < 0.7:
            t = s + rng.choice([-1, 1])*rng.choice([1e-7, 1e-4, 0.5])
        elif r < 0.78:
            t = rng.choice([lo, hi, hi - 1.0])
        elif r < 0.86:
            t = rng.choice([lo - 0.5, hi + 0.5, lo - 1e5, hi + 1e5])
        else:
            t = min(hi, max(lo, (q[-1]['t'] if q and 't' in q[-1] else lo) + rng.choice([1, 1, -1])*step/3))
        q.append({'op': 'eval', 't': float(f'{t:.8f}')})
        if rng.random() < 0.12:
            q.append({'op': 'restart'})
        if rng.random() < 0.1:
            q.append({'op': 'vanish', 'file': rng.randint(0, 9)})
            q.append({'op': 'eval', 't': float(f'{rng.uniform(lo, hi):.8f}')})
            q.append({'op': 'reappear'})
        if rng.random() < 0.1:
            q.append({'op': 'scribble'})
    sc['queries'] = q
    sc['faults'] = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 2, 3])):
            sc['faults'].append({'q': rng.randint(0, len(q) - 1), 'plan': {'at': rng.choice([0, 0, 1, 2, 3]), 'kind': 'error', 'match': rng.choice(['', 'ncopen', 'ncread']), 'errno': 'EIO'}})
    return sc


class Data:
    """What the files hold, kept by the simulator."""
    def __init__(self, sc, root):
        self.sc = sc
        r = np.random.RandomState(sc['seed'])
        self.base = datetime.datetime(2006, 5, 2, tzinfo=UTC)
        self.init = datetime.datetime(*sc['init'], tzinfo=datetime.timezone(datetime.timedelta(minutes=sc['init_tz'])))
        self.root = root
        n = len(sc['stamps'])
        self.shape = () if sc['shape'] == 'scalar' or sc['kind'] in ('daily',) else (3,)
        self.values = [r.uniform(-5, 5, (n,) + self.shape) for _ in range(sc['vars'])]
        self.names = [f'var{v}' for v in range(sc['vars'])]
        # stamps in model time
        self.t = [s + (self.base - self.init).total_seconds() for s in sc['stamps']]
        if sc['kind'] == 'daily':
            self.t = [t + sc['center_hour']*3600 for t in self.t]
        self.files = []

    def fnames(self, n):
        k = list(range(n))
        if self.sc['order'] == 'reversed':
            k = k[::-1]
        elif self.sc['order'] == 'shuffled':
            k = list(np.random.RandomState(self.sc['seed'] + 1).permutation(n))
        return [os.path.join(self.root, f'data_{j:02d}.nc') for j in k]

    def time_values(self, stamps, unit, ref, tz):
        per = {'seconds': 1, 'minutes': 60, 'hours': 3600, 'days': 86400}[unit]
        off = 0
        if tz:
            off = (1 if tz[0] == '+' else -1)*(int(tz[1:3])*3600 + int(tz[4:])*60)
        r = datetime.datetime(*ref, tzinfo=datetime.timezone(datetime.timedelta(seconds=off)))
        units = f'{unit} since {ref[0]:04d}-{ref[1]:02d}-{ref[2]:02d} {ref[3]:02d}:00:00' + (f' {tz}' if tz else '')
        return [(F(s) + F((self.base - r).total_seconds()))/per for s in stamps], units

    def write(self, fn, ix, unit, ref, tz, extra=0):
        import netCDF4
        stamps = [self.sc['stamps'][i] for i in ix]
        vals = [v[ix] for v in self.values]
        if extra:
            # forecast beyond the next file's start: superseded by that file
            step = self.sc['step']
            stamps += [stamps[-1] + (k + 1)*step for k in range(extra)]
            vals = [np.concatenate([v, np.full((extra,) + v.shape[1:], 777.0)]) for v in vals]
        tv, units = self.time_values(stamps, unit, ref, tz)
        with netCDF4.Dataset(fn, 'w') as d:
            d.createDimension('time', None)
            d.createDimension('x', 3)
            t = d.createVariable('time', 'f8', ('time',))
            t.units = units
            t.calendar = 'standard'
            t[:] = [float(x) for x in tv]
            for name, v in zip(self.names, vals):
                if v.ndim == 1:
                    d.createVariable(name, 'f8', ('time',))[:] = v
                elif self.sc['shape'] == 'vector-t-last':
                    d.createVariable(name, 'f8', ('x', 'time'))[:] = v.T
                else:
                    d.createVariable(name, 'f8', ('time', 'x'))[:] = v

    def make(self):
        sc = self.sc
        n = len(sc['stamps'])
        if sc['kind'] == 'daily':
            for i in range(n):
                day = self.base + datetime.timedelta(seconds=sc['stamps'][i])
                fn = os.path.join(self.root, f'{day.year:04d}', f'd_{day.month:02d}{day.day:02d}.nc')
                os.makedirs(os.path.dirname(fn), exist_ok=True)
                self.write(fn, [i], 'hours', [1970, 1, 1, 0], '')
                self.files.append(fn)
            return
        if sc['kind'] == 'forecast':
            parts = [list(range(k*sc['per'], (k + 1)*sc['per'])) for k in range(sc['nfiles'])]
            names = self.fnames(len(parts))
            for k, (fn, ix) in enumerate(zip(names, parts)):
                # a forecast overlaps the next file (the last one has nothing after it)
                self.write(fn, ix, sc['units'][0], sc['ref'][0], sc['ref_tz'][0], extra=sc['extra'])
                self.files.append(fn)
            return
        edges = [0] + sc['cuts'] + [n]
        names = self.fnames(len(edges) - 1)
        for k, fn in enumerate(names):
            self.write(fn, list(range(edges[k], edges[k + 1])), sc['units'][k], sc['ref'][k], sc['ref_tz'][k])
            self.files.append(fn)

    def interpolator(self):
        from thetis import interpolation as ip
        from thetis import forcing
        sc = self.sc
        pattern = os.path.join(self.root, 'data_*.nc')
        if sc['kind'] == 'daily':
            ts = ip.DailyFileTimeSearch(os.path.join(self.root, '{year:04d}', 'd_{month:02d}{day:02d}.nc'), self.init, center_hour=sc['center_hour'])
            return ip.LinearTimeInterpolator(ts, ip.NetCDFTimeSeriesReader(self.names))
        if sc['kind'] == 'forecast':
            ts = ip.NetCDFTimeSearch(pattern, self.init, forcing.ATMNetCDFTime, max_duration=86400.)
            return ip.LinearTimeInterpolator(ts, ip.NetCDFTimeSeriesReader(self.names))
        return ip.NetCDFTimeSeriesInterpolator(pattern, self.names, self.init, scalars=self.scalars(), allow_gaps=True)

    def scalars(self):
        return [2.0 + v for v in range(self.sc['vars'])] if self.sc['scalars'] and self.sc['kind'] == 'series' else None

    def expected(self, t):
        """(list of values or None when t is outside the data, slope)"""
        T = self.t
        if t < T[0] - 1e-5 or t > T[-1] + 1e-5:
            return None, 0
        if t < T[0] or t > T[-1] - 1e-5 and t != T[-1]:
            return 'either', 0
        i = min(max(bisect.bisect_right(T, t) - 1, 0), len(T) - 2)
        a = (t - T[i])/(T[i + 1] - T[i])
        out = []
        for k, v in enumerate(self.values):
            w = (1 - a)*v[i] + a*v[i + 1]
            if self.scalars():
                w = w*self.scalars()[k]
            out.append(w)
        return out, 10*30/(T[i + 1] - T[i])


def run(sc, ctx):
    disk = life.new_disk(ctx)
    try:
        if sc['kind'] in ('atm', 'fields'):
            return run_fields(sc, ctx, disk)
        seams.use(None)
        root = os.path.join(disk.root, 'in')
        os.makedirs(root)
        d = Data(sc, root)
        d.make()
        seams.use(disk)
        queries(sc, ctx, disk, d, d.interpolator, lambda ip, t: ip(t), d.expected, d.files)
    finally:
        disk.disarm()
        seams.use(None)


def queries(sc, ctx, disk, d, make, evaluate, expected, files):
    ip = make()
    plans = {}
    for f in sc['faults']:
        plans.setdefault(f['q'], []).append(f['plan'])
    hidden = []
    last = None
    for k, q in enumerate(sc['queries']):
        if q['op'] == 'restart':
            if not hidden:
                ip = make()
                ctx.fault('restart')
                ctx.nontrivial = True
            continue
        if q['op'] == 'vanish':
            fn = files[q['file'] % len(files)]
            if not hidden:
                os.rename(fn, fn + '.away')
                hidden.append(fn)
                ctx.fault('file_unavailable')
            continue
        if q['op'] == 'reappear':
            for fn in hidden:
                os.rename(fn + '.away', fn)
            hidden = []
            continue
        if q['op'] == 'scribble':
            # the caller may do what it likes with the arrays it got
            if last is not None:
                for a in last:
                    if isinstance(a, np.ndarray) and a.flags.writeable and a.ndim:
                        a *= 0
                        a += 12345.0
            continue
        t = q['t'] + d.t[0] - sc['stamps'][0]
        disk.fired = []
        if k in plans:
            disk.arm(plans[k])
        want, slope = expected(t)
        got = err = None
        try:
            got = evaluate(ip, t)
        except Exception as e:
            err = e
        fired = list(disk.fired)
        disk.disarm()
        ctx.count('evaluations')
        ctx.ev('eval', round(t, 6), type(err).__name__ if err else 'ok', len(fired))
        if err is not None:
            if fired or hidden:
                ctx.nontrivial = True
                ctx.probe('failed_read')
                if hidden and not fired:
                    continue
                # once the disk works again the same request succeeds
                try:
                    got, err = evaluate(ip, t), None
                except Exception as e:
                    err = e
            if err is not None and want is not None and want != 'either' and not hidden:
                raise Violation('data-not-found', f't={t}: {type(err).__name__}: {err}; data cover {d.t[0]} ... {d.t[-1]}', sig='data-not-found') from err
            if err is not None:
                continue
        elif fired:
            ctx.probe('read_error_swallowed')
        if want is None:
            raise Violation('extrapolated', f't={t} lies outside {d.t[0]} ... {d.t[-1]} but a value was returned: {got}')
        if want == 'either':
            continue
        last = got if isinstance(got, list) else None
        compare(got, want, 1e-9 + 2e-6*slope, t, d)
    ctx.sim_time += abs(d.t[-1] - d.t[0])
    if len(files) > 1:
        ctx.nontrivial = True


def compare(got, want, tol, t, d):
    if len(got) != len(want):
        raise Violation('value-count', f'{len(got)} values for {len(want)} variables')
    for j, (g, w) in enumerate(zip(got, want)):
        g = np.asarray(g, dtype=float).reshape(np.shape(w)) if np.size(g) == np.size(w) else np.asarray(g)
        if g.shape != np.shape(w) or not np.all(np.abs(g - w) <= tol*max(1.0, float(np.abs(w).max()))):
            i = min(max(bisect.bisect_right(d.t, t) - 1, 0), len(d.t) - 2)
            raise Violation('value', f't={t} (between stamps {i} at {d.t[i]} and {d.t[i+1]}): variable {j} is {np.asarray(g).tolist()}, interpolation gives {np.asarray(w).tolist()}')


# --- fields on a mesh -------------------------------------------------------

_mesh = None


def run_fields(sc, ctx, disk):
    """Gridded data, linear in longitude and latitude, interpolated on a mesh by AtmosphericForcingInterpolator / GenericInterpolator2D."""
    global _mesh
    import netCDF4
    import thetis as th
    from thetis import coordsys, forcing
    seams.use(None)
    if _mesh is None:
        m = th.RectangleMesh(3, 2, 6e3, 4e3)
        m.coordinates.dat.data[:] += np.array([4.5e5, 5.0e6])
        cs = coordsys.UTMCoordinateSystem(utm_zone=10)
        V = th.FunctionSpace(m, 'CG', 1)
        Vv = th.VectorFunctionSpace(m, 'CG', 1)
        _mesh = (m, cs, V, Vv)
    m, cs, V, Vv = _mesh
    xy = np.array(m.coordinates.dat.data_ro)
    lon, lat = cs.to_lonlat(xy[:, 0], xy[:, 1])
    root = os.path.join(disk.root, 'in')
    os.makedirs(root)
    sc = dict(sc, shape='scalar', vars=3)
    d = Data(sc, root)
    r = np.random.RandomState(sc['seed'])
    n = len(sc['stamps'])
    coef = r.uniform(-1, 1, (3, 3, n))     # variable, (const, lon, lat), stamp
    glon = np.linspace(lon.min() - 0.05, lon.max() + 0.05, 6)
    glat = np.linspace(lat.min() - 0.05, lat.max() + 0.05, 5)
    lon0, lat0 = glon.mean(), glat.mean()
    edges = [0] + sc['cuts'] + [n]
    names = d.fnames(len(edges) - 1)
    vn = ['u10', 'v10', 'msl']
    offs = [4.0, -3.0, 1e5]
    tname = 'valid_time' if sc['kind'] == 'atm' else 'time'
    for k, fn in enumerate(names):
        ix = list(range(edges[k], edges[k + 1]))
        tv, units = d.time_values([sc['stamps'][i] for i in ix], sc['units'][k], sc['ref'][k], sc['ref_tz'][k])
        with netCDF4.Dataset(fn, 'w') as f:
            f.createDimension(tname, None)
            f.createDimension('latitude', len(glat))
            f.createDimension('longitude', len(glon))
            t = f.createVariable(tname, 'f8', (tname,))
            t.units, t.calendar = units, 'standard'
            t[:] = [float(x) for x in tv]
            for nme, g in (('latitude', glat), ('longitude', glon)):
                v = f.createVariable(nme, 'f8', (nme,))
                v.standard_name = nme
                v[:] = g
            for j in range(3):
                v = f.createVariable(vn[j], 'f8', (tname, 'latitude', 'longitude'), fill_value=-9999.0)
                c = coef[j][:, ix]
                w = (offs[j] + c[0][:, None, None] + c[1][:, None, None]*(glon - lon0)[None, None, :]*10 + c[2][:, None, None]*(glat - lat0)[None, :, None]*10)
                if sc['kind'] == 'fields':
                    # a masked land corner outside the domain
                    w = np.ma.array(w)
                    w[:, 0, 0] = np.ma.masked
                v[:] = w
        d.files.append(fn)
    p, q, st = th.Function(V), th.Function(V), th.Function(Vv)
    pattern = os.path.join(root, 'data_*.nc')
    rot = cs.get_vector_rotator(lon, lat)

    def make():
        if sc['kind'] == 'atm':
            return forcing.ERA5Interpolator(V, st, p, cs, pattern, d.init)
        return forcing.GenericInterpolator2D(V, [p], ['msl'], pattern, d.init, cs, vector_field=st, vector_components=['u10', 'v10'])

    def evaluate(ip, t):
        before = [np.array(f.dat.data_ro) for f in (p, st)]
        try:
            ip.set_fields(t)
        except Exception:
            if not all(np.array_equal(a, f.dat.data_ro, equal_nan=True) for a, f in zip(before, (p, st))):
                raise Violation('partial-update', f't={t}: the forcing update failed and left some fields changed') from None
            raise
        return [np.array(p.dat.data_ro), np.array(st.dat.data_ro)]

    def expected(t):
        T = d.t
        if t < T[0] - 1e-5 or t > T[-1] + 1e-5:
            return None, 0
        if t < T[0] or t > T[-1] - 1e-5 and t != T[-1]:
            return 'either', 0
        i = min(max(bisect.bisect_right(T, t) - 1, 0), n - 2)
        a = (t - T[i])/(T[i + 1] - T[i])
        c = (1 - a)*coef[:, :, i] + a*coef[:, :, i + 1]
        w = [offs[j] + c[j, 0] + c[j, 1]*(lon - lon0)*10 + c[j, 2]*(lat - lat0)*10 for j in range(3)]
        if sc['kind'] == 'atm':
            u, v = rot(*forcing.compute_wind_stress(w[0], w[1]))
        else:
            u, v = rot(w[0], w[1])
        return [w[2], np.array([u, v]).T], 10*30/(T[i + 1] - T[i])
    seams.use(disk)
    queries(sc, ctx, disk, d, make, evaluate, expected, d.files)
