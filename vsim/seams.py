"""
Seams owned by the simulator: file system, HDF5 / checkpoint files, wall clock.

All of them are replaced inside this process only; nothing in /repo is changed.
Only paths below the scratch root of the current run are intercepted.
"""
import builtins
import errno
import functools
import io
import itertools
import os
import shutil
import sys
import time

from .core import SimCrash

_real_open = builtins.open
_real = {n: getattr(os, n) for n in ('remove', 'unlink', 'rename', 'replace', 'mkdir', 'rmdir')}
_real_perf_counter = time.perf_counter


def quiet_and_import():
    """Import the code under test (from /repo, never a copy)."""
    import h5py      # noqa: before thetis, so that classes are patched for everybody
    import netCDF4   # noqa
    import warnings
    warnings.simplefilter('ignore')
    install()
    import thetis
    assert os.path.realpath(thetis.__file__) == '/repo/thetis/__init__.py', thetis.__file__
    import logging
    # keep model chatter off the worker's stderr; the log file handlers are what users rely on
    for n in ('thetis', 'thetis_output'):
        for h in list(logging.getLogger(n).handlers):
            if type(h) is logging.StreamHandler:
                h.setLevel(logging.CRITICAL + 1)
    return thetis


class Disk:
    """The simulated disk of one run: counts operations, fires planned faults.

    plan: list of dicts {at: <ordinal of the operation since arm()>, kind: ...}
      crash        die before the operation
      crash_after  die after the operation
      torn         (write) a prefix reaches the disk, then die
      error        operation fails with OSError(errno)
      short        (write) a prefix reaches the disk, then OSError(ENOSPC)
    optional: match (operation name prefix the ordinal counts), frac, errno, tear
    """
    def __init__(self, ctx, root):
        self.ctx = ctx
        self.root = os.path.realpath(root)
        self.plan = []
        self.n = 0
        self.counts = {}
        self.dead = False
        self.depth = 0
        self.image = self.root.rstrip('/') + '.image'
        self.open_for_write = {}
        self.log = []
        self.armed = False
        self.tear_on_close = {}
        self.fired = []

    # -- control
    def arm(self, plan):
        self.plan = [dict(p) for p in plan]
        self.n = 0
        self.counts = {}
        self.log = []
        self.armed = True
        self.fired = []

    def disarm(self):
        self.armed = False
        self.plan = []

    def mine(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return os.path.relpath(p, self.root)
        return None

    # -- crash
    def crash(self, why):
        """Freeze what is on the disk now, then die."""
        if not self.dead:
            self.dead = True
            self.depth += 1
            try:
                shutil.rmtree(self.image, ignore_errors=True)
                shutil.copytree(self.root, self.image)
            finally:
                self.depth -= 1
            self.ctx.ev('crash', why)
        raise SimCrash(why)

    def restart(self):
        """Bring the frozen disk image back after a crash."""
        self.depth += 1
        try:
            if self.dead and os.path.isdir(self.image):
                for name in os.listdir(self.root):
                    p = os.path.join(self.root, name)
                    if os.path.isdir(p):
                        shutil.rmtree(p)
                    else:
                        _real['remove'](p)
                for name in os.listdir(self.image):
                    os.rename(os.path.join(self.image, name), os.path.join(self.root, name))
                shutil.rmtree(self.image, ignore_errors=True)
        finally:
            self.depth -= 1
        self.dead = False
        self.open_for_write = {}
        self.tear_on_close = {}
        self.disarm()

    def tear_image(self, rel, frac):
        p = os.path.join(self.image, rel)
        if os.path.isfile(p):
            n = os.path.getsize(p)
            with _real_open(p, 'r+b') as f:
                f.truncate(int(n*frac))

    # -- one operation
    def op(self, name, rel, fn, write=None):
        """Perform operation ``name`` on file ``rel``; fn() does it for real.
        write(k) performs only a prefix (fraction) of a write."""
        if self.dead or self.depth or not self.armed:
            return fn()
        full = f'{name} {rel}'
        self.n += 1
        self.log.append(full)
        hit = None
        for p in self.plan:
            m = p.get('match', '')
            if p.get('done') or not (m in full):
                continue
            key = (m, id(p))
            self.counts[key] = self.counts.get(key, 0) + 1
            if self.counts[key] == p['at'] + 1 and hit is None:
                hit = p
        if hit is None:
            return fn()
        hit['done'] = True
        kind = hit['kind']
        if kind in ('torn', 'short') and write is None:
            kind = 'crash' if kind == 'torn' else 'error'
        self.ctx.fault('disk_' + kind)
        self.fired.append((kind, full))
        self.ctx.ev('fault', kind, full)
        if kind == 'crash':
            self.crash(full)
        if kind == 'crash_after':
            fn()
            self.crash(full)
        if kind == 'torn':
            write(hit.get('frac', 0.5))
            self.crash(full)
        if kind == 'short':
            write(hit.get('frac', 0.5))
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), rel)
        if kind == 'error':
            e = hit.get('errno', 'EIO')
            num = getattr(errno, e)
            if hit.get('tear') is not None:
                self.tear_on_close[rel] = hit['tear']
            raise OSError(num, os.strerror(num), rel)
        raise AssertionError(kind)


class _Off:
    def op(self, name, rel, fn, write=None):
        return fn()

    def mine(self, path):
        return None


current = _Off()


def use(disk):
    global current
    current = disk if disk is not None else _Off()


class FaultFile:
    """Wraps a Python file object opened for writing below the scratch root."""
    def __init__(self, f, rel):
        self.__dict__['_f'] = f
        self.__dict__['_rel'] = rel
        if isinstance(current, Disk):
            current.open_for_write[rel] = current.open_for_write.get(rel, 0) + 1

    def write(self, data):
        f = self._f

        def prefix(frac):
            k = int(len(data)*frac)
            f.write(data[:k])
            f.flush()
        return current.op('write', self._rel, lambda: f.write(data), prefix)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        return current.op('flush', self._rel, self._f.flush)

    def truncate(self, *a):
        return current.op('truncate', self._rel, lambda: self._f.truncate(*a))

    def close(self):
        if self._f.closed:
            return
        d = current
        if isinstance(d, Disk):
            d.open_for_write.pop(self._rel, None)
        try:
            d.op('close', self._rel, lambda: None)
        finally:
            self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)


def _open(file, mode='r', *a, **kw):
    rel = None if isinstance(file, int) else current.mine(file)
    if rel is None:
        return _real_open(file, mode, *a, **kw)
    writing = any(c in mode for c in 'wax+')
    f = current.op('open-w' if writing else 'open-r', rel, lambda: _real_open(file, mode, *a, **kw))
    return FaultFile(f, rel) if writing else f


def _os_wrap(name):
    real = _real[name]

    @functools.wraps(real)
    def w(path, *a, **kw):
        rel = None if isinstance(path, int) else current.mine(path)
        if rel is None:
            return real(path, *a, **kw)
        return current.op(name, rel, lambda: real(path, *a, **kw))
    return w


class SimClock:
    """perf_counter as the simulated process sees it."""
    def __init__(self):
        self.t = 1000.0
        self.script = itertools.repeat(0.125)

    def __call__(self):
        self.t += next(self.script)
        return self.t


_clock = None


def use_clock(clock):
    global _clock
    _clock = clock


def _perf_counter():
    if _clock is None:
        return _real_perf_counter()
    return _clock()


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = _open
    io.open = _open
    for n in _real:
        setattr(os, n, _os_wrap(n))
    time.perf_counter = _perf_counter
    _install_h5py()
    _install_netcdf()
    _install_checkpoint()


def _wrap_method(cls, name, opname, relof, nested=True):
    real = getattr(cls, name)

    @functools.wraps(real)
    def w(self, *a, **kw):
        d = current
        if not isinstance(d, Disk) or d.depth or d.dead:
            return real(self, *a, **kw)
        rel = relof(self, a, kw)
        if rel is None:
            return real(self, *a, **kw)

        def fn():
            d.depth += 1      # whatever happens inside is part of this operation
            try:
                return real(self, *a, **kw)
            finally:
                d.depth -= 1
        return d.op(opname, rel, fn)
    setattr(cls, name, w)


def _install_h5py():
    import h5py

    def rel_file_new(self, a, kw):
        name = a[0] if a else kw.get('name')
        mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
        if not isinstance(name, (str, bytes, os.PathLike)):
            return None
        rel = current.mine(name)
        if rel is None:
            return None
        return rel

    def rel_file(self, a, kw):
        try:
            return current.mine(self.filename)
        except Exception:
            return None

    def rel_obj(self, a, kw):
        try:
            return current.mine(self.file.filename)
        except Exception:
            return None
    _wrap_method(h5py.File, '__init__', 'h5open', rel_file_new)
    _wrap_method(h5py.File, 'close', 'h5close', rel_file)
    _wrap_method(h5py.Dataset, '__setitem__', 'h5write', rel_obj)
    _wrap_method(h5py.Dataset, 'resize', 'h5resize', rel_obj)
    _wrap_method(h5py.Dataset, '__getitem__', 'h5read', rel_obj)
    _wrap_method(h5py.Group, 'create_dataset', 'h5create', rel_obj)


def _install_netcdf():
    """Input files: opening one and looking up a variable for reading can fail."""
    import netCDF4
    real = netCDF4.Dataset

    class Proxy:
        def __init__(self, d, rel):
            self.__dict__.update(_d=d, _rel=rel)

        def __getitem__(self, k):
            return current.op('ncread', self._rel, lambda: self._d[k])

        def __getattr__(self, k):
            return getattr(self._d, k)

        def __setattr__(self, k, v):
            setattr(self._d, k, v)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self._d.close()

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (real, Proxy))

        def __getattr__(cls, k):
            return getattr(real, k)

    class Dataset(metaclass=Meta):
        def __new__(cls, filename, mode='r', *a, **kw):
            rel = current.mine(filename) if isinstance(filename, (str, os.PathLike)) else None
            if rel is None or mode != 'r':
                return real(filename, mode, *a, **kw)
            return Proxy(current.op('ncopen', rel, lambda: real(filename, mode, *a, **kw)), rel)
    netCDF4.Dataset = Dataset


def _install_checkpoint():
    from firedrake import checkpointing as c
    cls = c.CheckpointFile
    real_init, real_close = cls.__init__, cls.close

    def rel_init(self, a, kw):
        name = a[0] if a else kw.get('filename')
        rel = current.mine(name)
        self._vsim_rel = rel
        return rel

    def rel(self, a, kw):
        return getattr(self, '_vsim_rel', None)

    def close(self, *a, **kw):
        r = real_close(self, *a, **kw)
        d = current
        rel_ = getattr(self, '_vsim_rel', None)
        if isinstance(d, Disk) and rel_ in d.tear_on_close:
            frac = d.tear_on_close.pop(rel_)
            p = os.path.join(d.root, rel_)
            if os.path.isfile(p):
                with _real_open(p, 'r+b') as f:
                    f.truncate(int(os.path.getsize(p)*frac))
        return r
    cls.close = close
    _wrap_method(cls, '__init__', 'ckopen', rel_init)
    for n, o in (('save_mesh', 'cksavemesh'), ('set_attr', 'ckattr'), ('save_function', 'cksave'),
                 ('close', 'ckclose'), ('load_function', 'ckload'), ('load_mesh', 'ckloadmesh')):
        _wrap_method(cls, n, o, rel)
    _ = real_init
