"""
Entry point of every check.

  python -m vsim.main <ID> [--tier quick|thorough]     run the check
  python -m vsim.main <ID> --replay FILE               re-execute a replay file
  python -m vsim.main <ID> --determinism N             run N seeds twice, diff event logs
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import core
from .worker import load_known

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def spec(pid):
    with open(os.path.join(HERE, 'checks.json')) as f:
        return json.load(f)[pid]


def start_worker(pid, seed, tier, first, step, runs, budget, base, k, extra=(), env=None):
    wdir = os.path.join(base, f'w{k}')
    os.makedirs(wdir, exist_ok=True)
    out = os.path.join(wdir, 'out.jsonl')
    open(out, 'w').close()
    e = dict(os.environ)
    e['TMPDIR'] = wdir
    if env:
        e.update(env)
    log = open(os.path.join(wdir, 'log'), 'wb')
    p = subprocess.Popen([sys.executable, '-m', 'vsim.worker', pid, '--seed', str(seed), '--tier', tier,
                          '--first', str(first), '--step', str(step), '--runs', str(runs),
                          '--budget', str(budget), '--scratch', wdir, '--out', out, *extra],
                         stdout=log, stderr=subprocess.STDOUT, cwd=HERE, env=e, start_new_session=True)
    return {'p': p, 'out': out, 'dir': wdir, 'pos': 0, 'last': time.monotonic(), 'recs': [], 'k': k, 'log': log.name}


def poll(w):
    with open(w['out']) as f:
        f.seek(w['pos'])
        while True:
            line = f.readline()
            if not line.endswith('\n'):
                break
            w['pos'] = f.tell()
            w['recs'].append(json.loads(line))
            w['last'] = time.monotonic()


def kill(w):
    import signal
    try:
        os.killpg(w['p'].pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    w['p'].wait()


def run_workers(ws, stall, hard_deadline, stop_on=None):
    """Wait for all workers. Returns a problem string or None."""
    problem = None
    while True:
        alive = False
        for w in ws:
            poll(w)
            if w['p'].poll() is None:
                alive = True
                if time.monotonic() - w['last'] > stall:
                    problem = f"worker {w['k']} made no progress for {stall:.0f} s (last {[r for r in w['recs'] if r['type'] == 'start'][-1:]})"
            elif not w['recs'] or w['recs'][-1]['type'] not in ('done', 'error'):
                poll(w)
                if not w['recs'] or w['recs'][-1]['type'] not in ('done', 'error'):
                    tail = open(w['log'], errors='replace').read()[-2000:]
                    problem = f"worker {w['k']} ended with {w['p'].returncode}: {tail}"
        if stop_on is not None and stop_on(ws):
            break
        if not alive or problem:
            break
        if time.monotonic() > hard_deadline:
            problem = 'hard deadline'
            break
        time.sleep(0.05)
    for w in ws:
        if w['p'].poll() is None:
            kill(w)
        else:
            w['p'].wait()
        poll(w)
    return problem


def replay(pid, path, base, n=1, verbose=False, env=None):
    """Execute a replay file in a fresh process; returns its run record or None."""
    extra = ['--replay', os.path.abspath(path), '--log-events']
    if verbose:
        extra.append('--verbose')
    w = start_worker(pid, 0, 'quick', 0, 1, 1, 600, base, f'replay{n}', extra, env=env)
    problem = run_workers([w], 400, time.monotonic() + 500)
    if verbose:
        sys.stdout.write(open(w['log'], errors='replace').read())
    recs = [r for r in w['recs'] if r['type'] == 'run']
    if not recs:
        return {'problem': problem or open(w['log'], errors='replace').read()[-3000:]}
    return recs[0]


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def check(pid, tier, seed, jobs, runs=None, budget=None):
    s = spec(pid)
    t0 = time.monotonic()
    runs = runs or s[tier]['runs']
    budget = budget or s[tier]['budget_s']
    base = tempfile.mkdtemp(prefix=f'vsim-{pid}-')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    print(f'{pid}: seed {seed}, tier {tier}, {runs} simulated runs, {jobs} workers', flush=True)
    code = 0
    violations = []
    try:
        # known findings are re-executed from their recorded histories
        known_hits = {}
        known = load_known(pid)
        kws = []
        for n, k in enumerate(known):
            rp = os.path.join(base, f'known{n}.json')
            with open(rp, 'w') as f:
                json.dump({'property': pid, 'scenario': k['scenario']}, f)
            kws.append((k, start_worker(pid, 0, tier, 0, 1, 1, 300, base, f'known{n}', ['--replay', rp])))
        if kws:
            problem = run_workers([w for _, w in kws], 300, time.monotonic() + 400)
            if problem:
                print('ERROR', problem)
                return 2
            for k, w in kws:
                for r in w['recs']:
                    if r['type'] == 'run':
                        for kk in r['known']:
                            known_hits[tuple(kk)] = known_hits.get(tuple(kk), 0) + 1
                        if 'violation' in r:
                            violations.append({'i': 'known-scenario', 'scenario': k['scenario'], 'original': k['scenario'],
                                               'tried': 0, **r['violation']})

        ws = [start_worker(pid, seed, tier, k, jobs, runs, budget, base, k) for k in range(jobs)]

        def stop_on(ws):
            # once a violation is minimised, nothing else needs to run
            return any(r['type'] == 'violation' for w in ws for r in w['recs'])
        problem = run_workers(ws, s.get('stall_s', 300), time.monotonic() + budget + 150, stop_on)
        recs = [r for w in ws for r in w['recs']]
        runrecs = [r for r in recs if r['type'] == 'run']
        for r in recs:
            if r['type'] == 'violation':
                violations.append(r)
        pend = [r for r in runrecs if 'violation' in r and not violations]
        if pend and not violations:
            # a violation whose minimisation was cut short
            r = pend[0]
            violations.append({'i': r['i'], 'scenario': None, **r['violation']})
        errors = [r for r in recs if r['type'] == 'error']
        faults, probes, stats = {}, {}, {}
        sim_time = 0.0
        worst = {}
        digests = set()
        for r in runrecs:
            merge(faults, r['faults'])
            merge(probes, r['probes'])
            merge(stats, r['stats'])
            sim_time += r['sim_time']
            for q, d in r.get('worst', {}).items():
                worst[q] = max(worst.get(q, 0.0), float(d))
            if r['nontrivial']:
                digests.add(r['digest'])
            for kk in r['known']:
                known_hits[tuple(kk)] = known_hits.get(tuple(kk), 0) + 1
        samples = [r['scenario'] for r in recs if r['type'] == 'sample'][:3]
        wall = time.monotonic() - t0
        cov = {
            'evaluations': len(runrecs),
            'distinct_nontrivial': len(digests),
            'rule': s['rule'],
            'samples': samples,
            'runs_planned': runs,
            'runs_per_hour': round(len(runrecs)/max(wall, 1e-9)*3600),
            'seeds_per_hour': round(len(runrecs)/max(wall, 1e-9)*3600),
            'simulated_seconds': sim_time,
            'faults_fired': faults,
            'probes': probes,
            'counters': stats,
            'distinct_measure': 'sha1 of the recorded event history of a run',
            'components_real': s['real'],
            'components_stubbed': s['stub'],
            'largest_deviations': worst,
            'workers': jobs,
            'known_findings_hit': {f'{k[0]} [{k[1]}]': v for k, v in known_hits.items()},
        }
        reported = 0
        if violations:
            rdir = os.path.join(HERE, 'replays')
            os.makedirs(rdir, exist_ok=True)
            for v in violations[:1]:
                path = os.path.join(rdir, f"{pid}-seed{seed}-run{v['i']}.json")
                sc = v['scenario']
                if sc is None:
                    import importlib
                    prop = importlib.import_module(f'vsim.props.{pid.lower()}')
                    sc = prop.gen(core.rng_for(seed, pid, v['i']), v['i'], tier)
                cands = [sc] + ([v['original']] if v.get('original') not in (None, sc) else [])
                ok = None
                for c in cands:
                    with open(path, 'w') as f:
                        json.dump({'property': pid, 'seed': seed, 'run': v['i'], 'kind': v['kind'], 'sig': v['sig'],
                                   'message': v['message'], 'scenario': c}, f, indent=1)
                    r = replay(pid, path, base)
                    if 'violation' in r and r['violation']['kind'] == v['kind']:
                        ok = r
                        break
                print(f"seed {seed} run {v['i']}: {v['kind']} [{v['sig']}]: {v['message']}")
                if ok is not None:
                    print('replayed in a fresh process: same violation')
                else:
                    print('NOTE: the violation did not reproduce from the replay file in a fresh process')
                print(f'VIOLATION property={pid} replay={path}', flush=True)
                reported += 1
            code = 1
        for k in known:
            key = (k['kind'], k['sig'])
            if known_hits.get(key):
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        if code == 0 and errors:
            print('ERROR in the harness:', errors[0]['tb'])
            code = 2
        if code == 0 and problem:
            print('ERROR', problem)
            code = 2
        if code == 0 and not runrecs:
            print('ERROR no runs executed')
            code = 2
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': s['level'], 'coverage': cov,
              'assumptions': s.get('assumptions', []), 'wall_s': round(time.monotonic() - t0, 2), 'violations': reported}
        with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print(f"{pid}: {len(runrecs)} runs ({len(digests)} distinct non-trivial) in {wall:.0f} s, "
              f"simulated {sim_time:.0f} s, faults {faults}, probes {probes}")
        if code == 0:
            print(f'{pid}: OK')
        return code
    finally:
        if os.environ.get('VSIM_KEEP'):
            print('kept', base)
        else:
            shutil.rmtree(base, ignore_errors=True)


def determinism(pid, n, jobs, tier='quick'):
    """Run n seeds twice, at two worker counts and under two hash seeds; compare event digests."""
    base = tempfile.mkdtemp(prefix=f'vsim-det-{pid}-')
    try:
        res = []
        for rnd, (j, hs) in enumerate([(jobs, '0'), (max(1, jobs//2 + 1), '12345')]):
            ws = [start_worker(pid, 777, tier, k, j, n, 3600, os.path.join(base, str(rnd)), k,
                               ['--log-events'], env={'PYTHONHASHSEED': hs}) for k in range(j)]
            problem = run_workers(ws, 300, time.monotonic() + 3600)
            if problem:
                print('problem', problem)
                return 2
            res.append({r['i']: r for w in ws for r in w['recs'] if r['type'] == 'run'})
            for w in ws:
                for r in w['recs']:
                    if r['type'] in ('error', 'violation'):
                        print(json.dumps(r)[:3000])
        bad = 0
        for i in sorted(res[0]):
            if i not in res[1]:
                continue
            a, b = res[0][i], res[1][i]
            if a['digest'] != b['digest']:
                bad += 1
                for x, y in zip(a['events'], b['events']):
                    if x != y:
                        print(i, 'differs:', x[:300], '|', y[:300])
                        break
                else:
                    print(i, 'length differs', len(a['events']), len(b['events']))
        print(f'{pid}: {len(res[0])} seeds executed twice, {bad} diverged')
        return 1 if bad else 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VSIM_JOBS', str(min(8, os.cpu_count() or 1)))))
    ap.add_argument('--runs', type=int, default=None)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--determinism', type=int)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.replay:
        base = tempfile.mkdtemp(prefix='vsim-replay-')
        try:
            r = replay(a.pid, a.replay, base, verbose=a.verbose)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        if 'violation' in r:
            v = r['violation']
            print(f"{v['kind']} [{v['sig']}]: {v['message']}")
            print(f'VIOLATION property={a.pid} replay={a.replay}')
            return 1
        if 'problem' in r:
            print(r['problem'])
            return 2
        print('no violation;', 'known:', r['known'])
        return 0
    if a.determinism:
        return determinism(a.pid, a.determinism, a.jobs, a.tier)
    return check(a.pid, a.tier, a.seed, a.jobs, a.runs, a.budget)


if __name__ == '__main__':
    sys.exit(main())
