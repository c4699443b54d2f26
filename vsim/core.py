"""
Core of the simulator: seeded choices, event trace, violations, fault counters,
scenario execution and minimisation.

One integer (VERIF_SEED) plus a run number decides a scenario; a scenario is
plain JSON and, together with the code in /repo, decides the whole execution.
"""
import copy
import hashlib
import json
import os
import random
import time


class SimCrash(BaseException):
    """The simulated process dies here (only what is on the simulated disk survives)."""


class SimAbort(BaseException):
    """The simulator stops an execution that exceeded its step budget."""


class Violation(Exception):
    """A property does not hold in this execution.

    ``kind`` is a stable class of violation (used by the minimiser),
    ``sig`` identifies the specific failing call site / input / history and is
    what known findings are matched against."""
    def __init__(self, kind, message, sig=None, data=None):
        super().__init__(f'{kind}: {message}')
        self.kind = kind
        self.message = message
        self.sig = sig or kind
        self.data = data or {}


class Rng(random.Random):
    """The generator of one run; epoch() is one that a few runs of the same worker share."""
    parts = ()

    def epoch(self, n, width=8):
        """Runs that differ only in history and faults reuse the kernels compiled for their common configuration."""
        seed, pid, i = self.parts
        k, j = i % width, (i//width)//n
        r = random.Random(f'{seed}/{pid}/epoch/{k}/{j}')
        return r, k + width*j


def rng_for(*parts):
    # str seeding hashes with sha512: independent of PYTHONHASHSEED
    r = Rng('/'.join(str(p) for p in parts))
    r.parts = parts
    return r


class Ctx:
    """What one simulated execution records."""
    def __init__(self, scratch, verbose=False):
        self.scratch = scratch
        self.verbose = verbose
        self.events = []          # the event log (deterministic)
        self.faults = {}          # fault kind -> times it actually fired
        self.worst = {}           # quantity -> largest deviation seen
        self.probes = {}          # rare condition -> times it was hit
        self.stats = {}           # free counters (steps, exports, ...)
        self.sim_time = 0.0       # simulated seconds covered
        self.nontrivial = False
        self.findings = []        # violations (all; the runner decides about known ones)

    def ev(self, *what):
        self.events.append(what)
        if self.verbose:
            print('   ev', *what, flush=True)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def count(self, kind, n=1):
        self.stats[kind] = self.stats.get(kind, 0) + n

    def found(self, violation):
        """Record a violation but let the execution continue."""
        self.findings.append(violation)

    def digest(self):
        def norm(x):
            if isinstance(x, float):
                return repr(x)
            if isinstance(x, (list, tuple)):
                return [norm(y) for y in x]
            if isinstance(x, dict):
                return {str(k): norm(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
            if isinstance(x, (int, str, bool)) or x is None:
                return x
            return str(x)
        blob = json.dumps([norm(e) for e in self.events], sort_keys=True).encode()
        return hashlib.sha1(blob).hexdigest()


def scenario_digest(sc):
    return hashlib.sha1(json.dumps(sc, sort_keys=True).encode()).hexdigest()


def execute(prop, scenario, scratch, verbose=False):
    """Execute one scenario. Returns (ctx, [violations])."""
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    ctx = Ctx(scratch, verbose=verbose)
    old = os.getcwd()
    os.chdir(scratch)
    try:
        prop.run(copy.deepcopy(scenario), ctx)
    except Violation as v:
        ctx.found(v)
    except Exception as e:
        # the scenario is valid: code under test that raises has not done what it should
        tb = e.__traceback__
        where = None
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith('/repo/'):
                where = f'{fn[6:]}:{tb.tb_frame.f_code.co_name}'
            tb = tb.tb_next
        if where is None:
            raise
        import traceback
        ctx.found(Violation('raised', f'{type(e).__name__} in {where}: {e}\n' + ''.join(traceback.format_exception(e))[-2500:],
                            sig=f'{type(e).__name__} {where}'))
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
    for v in ctx.findings:
        ctx.ev('VIOLATION', v.kind, v.sig)
    return ctx, list(ctx.findings)


# --- minimisation -----------------------------------------------------------

def _generic_shrinks(sc, path=()):
    """Candidate simplifications of a JSON scenario: drop list entries,
    move numbers towards 0/1, switch flags off."""
    node = sc
    for p in path:
        node = node[p]
    if isinstance(node, dict):
        for k in sorted(node):
            if k.startswith('_'):
                continue
            yield from _generic_shrinks(sc, path + (k,))
    elif isinstance(node, list):
        if path and path[-1] in _DROPPABLE:
            n = len(node)
            size = n // 2
            while size >= 1:
                for i in range(0, n - size + 1, size):
                    c = copy.deepcopy(sc)
                    t = c
                    for p in path[:-1]:
                        t = t[p]
                    t[path[-1]] = node[:i] + node[i + size:]
                    yield c
                size //= 2
        for i in range(len(node)):
            yield from _generic_shrinks(sc, path + (i,))


_DROPPABLE = ('ops', 'faults', 'lives', 'queries', 'schedule', 'callbacks', 'msgs')


def minimise(prop, scenario, kind, sig, scratch, deadline):
    """Greedy shrink keeping the same violation class (kind and signature)."""
    best = scenario
    tried = 0

    def still_fails(c):
        nonlocal tried
        tried += 1
        try:
            if hasattr(prop, 'valid') and not prop.valid(c):
                return False
            _, vs = execute(prop, c, scratch)
        except Exception:
            return False
        return any(v.kind == kind and v.sig == sig for v in vs)

    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        gens = []
        if hasattr(prop, 'shrink'):
            gens.append(prop.shrink(best))
        gens.append(_generic_shrinks(best))
        for g in gens:
            for c in g:
                if time.monotonic() > deadline:
                    break
                if c == best:
                    continue
                if still_fails(c):
                    best = c
                    improved = True
                    break
            if improved:
                break
    return best, tried
