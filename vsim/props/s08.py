"""
S08  Log file: every message reaches the log file of the moment exactly once and in order, whatever sequence of
     directory changes, logger set-ups, I/O errors, crashes and continued runs.
"""
import importlib.util
import io
import logging
import os
import sys

from .. import life, seams
from ..core import SimCrash, Violation
from .s05 import FakeComm

NAMES = ('thetis', 'thetis_output')
LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']


def gen(rng, i, tier):
    if i % 9 == 4:
        return gen_solver(rng)
    ops = []
    lives = rng.choice([1, 1, 2, 2, 3])
    for ln in range(lives):
        if ln:
            ops.append({'op': 'restart', 'rank': 0})
        n = rng.randint(2, 14)
        for _ in range(n):
            r = rng.random()
            if r < 0.5:
                ops.append({'op': 'msg', 'ch': rng.choice(['out', 'out', 'out'] + LEVELS), 'form': rng.choice(['plain', 'plain', 'args', 'lines', 'empty', 'unicode', 'percent'])})
            elif r < 0.78:
                ops.append({'op': 'dir', 'd': rng.choice([0, 0, 0, 1, 2]), 'mode': rng.choice(['w', 'a', 'a', None])})
            elif r < 0.86:
                ops.append({'op': 'loggers'})
            elif r < 0.92:
                ops.append({'op': 'level', 'level': rng.choice(LEVELS)})
            elif r < 0.96:
                ops.append({'op': 'block', 'd': rng.choice([0, 1, 2])})
            else:
                ops.append({'op': 'unblock'})
    if rng.random() < 0.1:
        for o in ops:
            if o['op'] == 'restart':
                o['rank'] = rng.choice([0, 1])
    faults = []
    if rng.random() < 0.55:
        for _ in range(rng.choice([1, 1, 2])):
            faults.append({'op': rng.randint(0, len(ops) - 1),
                           'plan': [{'at': rng.choice([0, 0, 0, 1, 2, 3]), 'kind': rng.choice(['error', 'error', 'crash', 'crash_after', 'torn', 'short']),
                                     'match': rng.choice(['', '', 'open', 'write', 'mkdir', 'remove', 'close', 'flush']),
                                     'errno': rng.choice(['EIO', 'ENOSPC', 'EACCES']), 'frac': rng.choice([0.0, 0.3, 0.8])}]})
    for f in faults:
        if rng.random() < 0.6:
            # aim at an operation on directories
            dirs = [k for k, o in enumerate(ops) if o['op'] == 'dir']
            if dirs:
                f['op'] = rng.choice(dirs)
    return {'mode': 'direct', 'ops': ops, 'faults': faults, 'rank': 1 if rng.random() < 0.06 else 0}


def gen_solver(rng):
    dim = rng.choice([2, 2, 2, 3])
    lives = []
    for _ in range(rng.choice([1, 1, 2, 3] if dim == 2 else [1, 2])):
        lives.append({'keep': rng.random() < 0.6, 'kill': rng.choice([None, {'kind': 'force', 'at': rng.randint(1, 4)}, {'kind': 'ack', 'at': rng.randint(1, 3)},
                                                                      {'kind': 'disk', 'plan': [{'at': rng.randint(0, 40), 'kind': 'crash', 'match': ''}]}]),
                      'd': rng.choice([0, 0, 0, 1]), 'log': rng.random() < 0.9, 'early': rng.randint(0, 2)})
    return {'mode': 'solver', 'dim': dim, 'lives': lives}


def valid(sc):
    return all(f['op'] < len(sc['ops']) for f in sc.get('faults', []))


# --- reference --------------------------------------------------------------
# a log file is a list of items: ('must', s) ('may', s: any prefix) ('opt', s: all or nothing) ('note', faulty)

def delayed(content, pos, late):
    more = set()
    for x in late:
        for p in pos:
            if x is not None and content.startswith(x, p):
                more.add(p + len(x))
            elif x is None and content.startswith('thetis:WARNING ', p) and '\n' in content[p:]:
                more.add(content.index('\n', p) + 1)
    return more


def match(content, items):
    """Does content consist of these items? (set of reachable positions)"""
    pos = {0}
    late = []
    for kind, s in items:
        new = set()
        if kind == 'late':
            # a message whose flush failed sits in a buffer and may come out at any later time
            late.append(s)
            continue
        pos |= delayed(content, pos, late)
        for p in pos:
            if kind == 'must':
                if content.startswith(s, p):
                    new.add(p + len(s))
            elif kind == 'opt':
                new.add(p)
                if content.startswith(s, p):
                    new.add(p + len(s))
            elif kind == 'may':
                k = 0
                new.add(p)
                while k < len(s) and p + k < len(content) and content[p + k] == s[k]:
                    k += 1
                    new.add(p + k)
            elif kind == 'note':
                if s and None not in late:
                    late.append(None)
                # the announcement of the change itself (its wording is free)
                new.add(p)
                if content.startswith('thetis:WARNING ', p) or s:
                    e = content.find('\n', p)
                    if e >= 0:
                        new.add(e + 1)
                    if s:
                        new |= set(range(p, (e if e >= 0 else len(content)) + 1))
        pos = new
        if not pos:
            return False
    pos |= delayed(content, pos, late)
    return len(content) in pos


class Saved:
    """Logging state of the worker, put aside during a run."""
    def __enter__(self):
        self.h = {n: list(logging.getLogger(n).handlers) for n in NAMES}
        self.lv = {n: logging.getLogger(n).level for n in NAMES}
        self.re = logging.raiseExceptions
        self.err = sys.stderr
        for n in NAMES:
            logging.getLogger(n).handlers[:] = []
        logging.raiseExceptions = False
        return self

    def __exit__(self, *a):
        sys.stderr = self.err
        logging.raiseExceptions = self.re
        for n in NAMES:
            lg = logging.getLogger(n)
            for h in list(lg.handlers):
                lg.removeHandler(h)
                if isinstance(h, logging.FileHandler):
                    h.close()
            lg.handlers[:] = self.h[n]
            lg.setLevel(self.lv[n])


def fresh_process(rank):
    """Logging as right after 'import thetis' in a new process."""
    for n in NAMES:
        lg = logging.getLogger(n)
        for h in list(lg.handlers):
            lg.removeHandler(h)
            if isinstance(h, logging.FileHandler):
                try:
                    h.close()
                except OSError:
                    pass
        lg.setLevel(logging.NOTSET)
    sys.stderr = io.StringIO()
    real = sys.modules['thetis.log']
    spec = importlib.util.spec_from_file_location('thetis.log', real.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    m.set_thetis_loggers(comm=FakeComm(rank, 2 if rank else 1))
    return m


def run(sc, ctx):
    disk = life.new_disk(ctx)
    try:
        with Saved():
            if sc['mode'] == 'solver':
                return run_solver(sc, ctx, disk)
            Direct(sc, ctx, disk).go()
    finally:
        disk.disarm()
        seams.use(None)


class Direct:
    def __init__(self, sc, ctx, disk):
        self.sc, self.ctx, self.disk = sc, ctx, disk
        self.alts = {}           # directory -> alternatives of its log file
        self.serial = 0
        self.blocked = {}

    def path(self, d):
        return os.path.join(self.disk.root, f'out{d}', *(['sub'] if d == 2 else []))

    def log(self, d):
        return os.path.join(self.path(d), 'log')

    def start(self, rank):
        self.disk.restart()
        self.rank = rank
        self.m = fresh_process(rank)
        self.cur = None
        self.buffer = []
        self.startup = ''
        self.level = logging.WARNING
        self.console = []

    def go(self):
        self.start(self.sc['rank'])
        plans = {}
        for f in self.sc['faults']:
            plans.setdefault(f['op'], []).extend(f['plan'])
        for k, op in enumerate(self.sc['ops']):
            self.disk.fired = []
            if k in plans:
                self.disk.arm(plans[k])
            self.ctx.ev('op', k, op['op'], op.get('d'), op.get('mode'))
            try:
                getattr(self, 'do_' + op['op'])(op)
                self.disk.disarm()
            except SimCrash:
                self.ctx.nontrivial = True
                self.check('after a crash')
                self.start(self.rank)
                continue
            self.check(f'after operation {k} ({op["op"]})')
        if len({o.get('d') for o in self.sc['ops'] if o['op'] == 'dir'}) > 1:
            self.ctx.nontrivial = True

    # -- operations
    def emit(self, ch, form):
        self.serial += 1
        n = self.serial
        text = {'plain': f'message {n}', 'args': f'message {n} of 7', 'lines': f'first {n}\nsecond {n}\n', 'empty': '',
                'unicode': f'Ångström {n} °C', 'percent': f'100 % done {n}'}[form]
        log, lv = (self.m.print_output, logging.INFO) if ch == 'out' else (getattr(self.m, ch.lower()), getattr(logging, ch))
        shown = ch == 'out' or lv >= self.level
        line = (text if ch == 'out' else f'thetis:{ch} {text}') + '\n'
        saved = {d: list(a) for d, a in self.alts.items()}
        sb = list(self.buffer)
        if shown and self.rank == 0:
            # in flight
            if self.cur is not None:
                self.alts[self.cur] = [it + [('may', line)] for it in saved[self.cur]]
        if form == 'args':
            log('message %d of %d', n, 7)
        else:
            log(text)
        if shown and self.rank == 0:
            self.console.append(line)
            if self.cur is None:
                self.buffer = sb + [line]
            elif not self.disk.fired:
                self.alts[self.cur] = [it + [('must', line)] for it in saved[self.cur]]
            else:
                self.alts[self.cur] = [it + [('may', line), ('late', line)] for it in saved[self.cur]]
        self.ctx.count('messages')
        return line if shown else None

    def do_msg(self, op):
        self.emit(op['ch'], op['form'])

    def do_loggers(self, op):
        self.m.set_thetis_loggers(comm=FakeComm(self.rank, 2 if self.rank else 1))

    def do_level(self, op):
        self.m.thetis_log_level(op['level'])
        self.level = getattr(logging, op['level'])

    def do_restart(self, op):
        self.disk.disarm()
        self.start(op['rank'])
        self.ctx.nontrivial = True

    def do_block(self, op):
        """Something else sits where the directory should be."""
        d = op['d']
        self.disk.disarm()
        p = os.path.join(self.disk.root, f'out{d}')
        if d in self.blocked or d in self.alts or os.path.exists(p):
            return
        with open(p, 'w') as f:
            f.write('x')
        self.blocked[d] = p
        self.ctx.fault('directory_blocked')

    def do_unblock(self, op):
        self.disk.disarm()
        for p in self.blocked.values():
            os.remove(p)
        self.blocked = {}

    def do_dir(self, op):
        d, mode = op['d'], op['mode']
        kw = {} if mode is None else {'mode': mode}
        mode = mode or 'w'
        startup = ''.join(self.buffer) if self.cur is None else self.startup
        first = self.cur is None
        same = self.cur == d
        old = self.alts.get(d, [[]])
        before = [list(it) for it in old]
        head = [] if mode == 'w' else None
        if not same and self.rank == 0:
            # in flight or failed: the file may have been emptied, and begun
            begun = [(it if head is None else head) + [('may', startup), ('note', True)] for it in (old if head is None else [[]])]
            self.alts[d] = before + begun
        n0 = self.console_len()
        existed = os.path.isfile(self.log(d))
        try:
            self.m.set_log_directory(self.path(d), comm=FakeComm(self.rank, 2 if self.rank else 1), **kw)
        except OSError as e:
            self.ctx.nontrivial = True
            self.ctx.probe('failed_directory_change')
            self.ctx.ev('failed', type(e).__name__)
            if not self.disk.fired and d not in self.blocked:
                raise Violation('directory-error', f'set_log_directory({d}, {mode}) failed without any I/O error: {e!r}') from e
            if self.rank:
                return
            if same:
                raise Violation('directory-error', f'set_log_directory of the present directory failed: {e!r}') from e
            if not os.path.isfile(self.log(d)):
                self.alts.pop(d, None)
                if existed:
                    raise Violation('log-lost', f'the log of directory {d} disappeared in a failed change to it') from e
            self.disk.disarm()
            self.after_failure(d, startup)
            return
        if d in self.blocked and not same and self.rank == 0:
            raise Violation('directory-error', f'set_log_directory({d}) succeeded although a file is in the way')
        extra = self.console_text()[n0:]
        if extra:
            self.console.append(extra)     # the announcement
        if same or self.rank:
            return
        fired = bool(self.disk.fired)
        st = [('must' if first else 'opt', startup)]
        self.alts[d] = [(it if mode == 'a' else []) + st + [('note', fired)] for it in (before if mode == 'a' else [[]])]
        if first:
            self.startup = startup
            self.buffer = []
        self.cur = d
        self.ctx.count('directory_changes')

    def after_failure(self, d, startup):
        """Where do messages go now? The present log or the new one, but somewhere, and all to the same."""
        def sizes():
            return {x: self.read(x) for x in set(self.alts) | {d} if os.path.isfile(self.log(x))}
        where = []
        for ch in ('out', 'CRITICAL'):
            was = sizes()
            self.serial += 1
            text = f'probe {self.serial}'
            (self.m.print_output if ch == 'out' else self.m.critical)(text)
            line = text + '\n' if ch == 'out' else f'thetis:CRITICAL {text}\n'
            self.console.append(line)
            now = sizes()
            hit = [x for x in now if now[x] != was.get(x, '')]
            if len(hit) > 1 or any(not now[x].endswith(line) for x in hit):
                raise Violation('misrouted', f'after a failed directory change a message changed the logs {hit}')
            where.append((hit or [None])[0])
            if hit:
                self.alts[hit[0]] = [it + [('must', line)] for it in self.alts.get(hit[0], [[]])]
            elif self.cur is None:
                self.buffer.append(line)
        if where[0] != where[1]:
            raise Violation('misrouted', f'after a failed directory change model output goes to {where[0]} and warnings to {where[1]}')
        if where[0] is None and self.cur is not None:
            raise Violation('message-lost', 'after a failed directory change messages reach no log file any more')
        if where[0] is not None and self.cur is None:
            self.startup = startup
        if where[0] is not None:
            self.cur = where[0]

    # -- checks
    def read(self, d):
        with seams._real_open(self.log(d), encoding='utf-8', errors='replace') as f:
            return f.read()

    def console_text(self):
        return sys.stderr.getvalue()

    def console_len(self):
        return len(self.console_text())

    def check(self, when):
        dead = self.disk.dead
        for d in (0, 1, 2):
            p = self.log(d)
            if dead:
                p = p.replace(self.disk.root, self.disk.image, 1)
            have = os.path.isfile(p)
            if not have and self.alts.get(d, [[]]) not in ([], [[]]) and not any(all(k != 'must' for k, _ in it) for it in self.alts[d]):
                raise Violation('log-missing', f'{when}: the log of directory {d} does not exist')
            if not have:
                continue
            if d not in self.alts:
                raise Violation('stray-log', f'{when}: a log file exists in directory {d} although logging there never succeeded (rank {self.rank})')
            with seams._real_open(p, encoding='utf-8', errors='replace') as f:
                text = f.read()
            if not any(match(text, it) for it in self.alts[d]):
                raise Violation('log-content', f'{when}: log of directory {d} holds {text!r}, expected {self.alts[d][-1]!r}', sig='log-content')
        if not dead:
            if self.console_text() != ''.join(self.console):
                raise Violation('console', f'{when}: console shows {self.console_text()!r}, expected {"".join(self.console)!r}')
        self.ctx.count('checks')


# --- whole solver -----------------------------------------------------------

def run_solver(sc, ctx, disk):
    W = life.World.get()
    M = life.Model2D if sc['dim'] == 2 else life.Model3D
    tlog = sys.modules['thetis.log']
    want = {}
    serial = 0
    for ln, lf in enumerate(sc['lives']):
        life.reset_logging()
        sys.stderr = io.StringIO()
        tlog.set_thetis_loggers()
        for n in NAMES:
            # a reset that leaves handlers behind is the simulator's, not the code's, business
            seen = []
            for h in list(logging.getLogger(n).handlers):
                if type(h) in seen:
                    logging.getLogger(n).removeHandler(h)
                seen.append(type(h))
        cfg = {'ts': 'CrankNicolson', 'dt': 50.0, 'dt2d': 50.0, 'texp': 100.0, 'tend': 150.0, 'force': 'none', 'keep_log': lf['keep'], 'vtk': [], 'hdf5': ['elev_2d'],
               'dates': 'none', 'options': {'log_output': lf['log']}}
        m = M(W, ctx, cfg, disk)
        for _ in range(lf['early']):
            serial += 1
            tlog.print_output(f'early {serial}')
        out = os.path.join(disk.root, f'out{lf["d"]}')

        def setup(s, tr):
            tlog.warning(f'life {ln}: set up')

        def ack(s, tr):
            tlog.print_output(f'life {ln}: export {s.i_export}')
        # life() resets the log state once more, before anything is built
        real_reset = life.reset_logging
        life.reset_logging = lambda: None
        try:
            tr = m.life(out, kill=lf['kill'], keep_states=False, hooks={'setup': setup, 'ack': ack})
        finally:
            life.reset_logging = real_reset
        if tr.outcome == 'error':
            raise Violation('run-failed', f'life {ln}: {tr.error!r}') from tr.error
        console = sys.stderr.getvalue()
        disk.restart()
        ctx.ev('life', ln, tr.outcome, len(console.splitlines()))
        if tr.outcome == 'crash' or ln:
            ctx.nontrivial = True
        p = os.path.join(out, 'log')
        if not lf['log']:
            text = open(p, encoding='utf-8').read() if os.path.isfile(p) else ''
            if text != want.get(lf['d'], ''):
                raise Violation('log-despite-option', f'log_output is off and the log file changed to {text[-300:]!r}')
            continue
        if not os.path.isfile(p):
            if tr.outcome == 'crash' and not tr.forcing and not tr.acked:
                want.pop(lf['d'], None)
                continue
            raise Violation('log-missing', f'life {ln} ({tr.outcome}): no log file')
        text = open(p, encoding='utf-8').read()
        w = (want.get(lf['d'], '') if lf['keep'] else '') + console
        # lines are compared in the log's format: console and log share it
        if text != w and not (tr.outcome == 'crash' and w.startswith(text) and len(w) - len(text) <= len(console.splitlines(True)[-1])):
            k = next((i for i, (a, b) in enumerate(zip(text, w)) if a != b), min(len(text), len(w)))
            raise Violation('log-not-console', f'life {ln} ({tr.outcome}, keep_log {lf["keep"]}): the log file is not what was printed; {len(text)} and {len(w)} characters, '
                                               f'first difference at {k}: log {text[k:k+200]!r}, printed {w[k:k+200]!r}')
        want[lf['d']] = text
        ctx.count('logs_compared')
