"""
Planted bugs: build them from tools/plant_specs.py, confirm them, run the checks against them.

  plant.py make [ID...]          write seeded/<ID>/ from the specs
  plant.py demo [ID...]          demo on an unchanged and on a patched scratch copy
  plant.py tests [ID...]         stable tests on a patched scratch copy
  plant.py check [ID...] [--as PID]   apply to /repo, run the property's check, undo

Nothing here is read by a check.
"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
W = '/tmp/w/plant'
ENV = '. /opt/vp/env.sh; export FIREDRAKE_CACHE_DIR=/tmp/w/cache XDG_CACHE_HOME=/tmp/w/cache PYOP2_CACHE_DIR=/tmp/w/cache/pyop2 FIREDRAKE_TSFC_KERNEL_CACHE_DIR=/tmp/w/cache/tsfc; '


def sh(cmd, cwd=None, timeout=900):
    try:
        p = subprocess.run(['bash', '-c', ENV + cmd], cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', str(e.stdout)[-500:]


def copy(name):
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=d, check=True)
    return d


def specs():
    g = {}
    exec(open(os.path.join(HERE, 'tools', 'plant_specs.py')).read(), g)
    return g['SPECS']


def make(ids):
    d = copy('make')
    for s in specs():
        if ids and s['id'] not in ids:
            continue
        for f, old, new in s['edits']:
            p = os.path.join(d, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        # only lines of the original repository may be changed
        out = os.path.join(SEED, s['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        for line in blame_added(diff, d):
            print(s['id'], 'WARNING touches a line of our own commits:', line)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=d, check=True)
        open(os.path.join(out, 'demo.sh'), 'w').write(
            '#!/bin/bash\n[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 HDF5_USE_FILE_LOCKING=FALSE\n'
            'T=$(mktemp -d) || exit 3\npython "$(cd "$(dirname "$0")" && pwd)/demo.py" "$T"\nR=$?\nrm -rf "$T"\nexit $R\n')
        open(os.path.join(out, 'demo.py'), 'w').write(PRE + s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(d)


PRE = '''import os
import sys
T = sys.argv[1]          # scratch directory, removed afterwards
os.chdir(T)
sys.path.insert(0, os.environ['PYTHONPATH'])
'''


def blame_added(diff, d):
    base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout.strip()
    cur = None
    old = 0
    bad = []
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            cur = line[6:]
        elif line.startswith('@@'):
            old = int(line.split()[1].split(',')[0][1:])
        elif line.startswith('-') and not line.startswith('---'):
            b = subprocess.run(['git', 'blame', '-l', '-L', f'{old},{old}', 'HEAD', '--', cur], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout
            if not b.lstrip('^').startswith(base[:39]):
                bad.append(line)
            old += 1
        elif line.startswith(' '):
            old += 1
    return bad


def todo(ids):
    return ids or sorted(os.listdir(SEED))


def demo(ids):
    a = copy('clean')
    for i in todo(ids):
        b = copy('bug-' + i)
        rc, o = sh(f'git apply {SEED}/{i}/patch.diff', b)
        assert rc == 0, o
        t0 = time.time()
        r0, o0 = sh(f'bash {SEED}/{i}/demo.sh', a, 300)
        r1, o1 = sh(f'bash {SEED}/{i}/demo.sh', b, 300)
        ok = r0 == 0 and r1 not in (0, 'timeout')
        print(i, 'demo', 'OK' if ok else 'BAD', r0, r1, f'{time.time() - t0:.0f} s', flush=True)
        if not ok:
            print('  unchanged:', o0[-1500:])
            print('  patched:', o1[-1500:])
        else:
            print('    ', [x for x in o1.strip().splitlines() if x][-1:])
        shutil.rmtree(b)
    shutil.rmtree(a)


def tests(ids):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in todo(ids):
        b = copy('test-' + i)
        rc, o = sh(f'git apply {SEED}/{i}/patch.diff', b)
        assert rc == 0, o
        w = os.path.join(W, 'run-' + i)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w + '/tmp')
        rc, o = sh(f'export TMPDIR={w}/tmp PYTHONPATH={b}; python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --continue-on-collection-errors '
                   f"-m 'parallel[match]' -o junit_family=xunit2 --junitxml={w}/junit.xml test/operations test/interpolation test/firedrake test/slopelimiter "
                   f'test/pressure_grad test/barotropicChannel test/momentumEq/test_v-viscosity_mes.py', b, 1500)
        sh(f'python3 /opt/vp/results.py {w}/r.json junit:{w}/junit.xml')
        r = json.load(open(f'{w}/r.json'))
        miss = stable - set(r['passed'])
        print(i, 'tests', 'OK' if not miss else f'BAD {sorted(miss)[:5]} ({len(miss)})', flush=True)
        shutil.rmtree(b)
        shutil.rmtree(w)


def check(ids, as_pid=None):
    """In a private mount namespace: a patched copy of /repo and a copy of /verif are laid over the real ones."""
    tag = str(os.getpid())
    v = os.path.join(W, 'verif-' + tag)
    os.makedirs(W, exist_ok=True)
    subprocess.run(['cp', '-a', HERE, v], check=True)
    for i in todo(ids):
        pids = [as_pid] if as_pid else [json.load(open(f'{SEED}/{i}/meta.json'))['property']]
        b = copy('chk-' + tag)
        rc, o = sh(f'git apply {SEED}/{i}/patch.diff', b)
        assert rc == 0, o
        for pid in pids:
            t0 = time.time()
            rc, o = sh(f"unshare -Urm bash -c 'mount --bind {b} /repo && mount --bind {v} /verif && cd /verif && VSIM_CACHE=/tmp/w/cache ./check {pid}'", HERE, 900)
            x = [x for x in o.splitlines() if 'VIOLATION' in x]
            m = [x for x in o.splitlines() if x.startswith('seed ')]
            caught = rc == 1 and any(f'property={pid} ' in y for y in x)
            print(i, pid, 'CAUGHT' if caught else f'MISSED rc={rc}', f'{time.time() - t0:.0f} s', (m or [o[-600:]])[0][:260], flush=True)
        shutil.rmtree(b)
    shutil.rmtree(v)


if __name__ == '__main__':
    a = sys.argv[2:]
    pid = None
    if '--as' in a:
        k = a.index('--as')
        pid = a[k + 1]
        a = a[:k] + a[k + 2:]
    cmd = sys.argv[1]
    if cmd == 'check':
        check(a, pid)
    else:
        {'make': make, 'demo': demo, 'tests': tests}[cmd](a)
