"""One worker process: executes the simulated runs i = k mod N of a property."""
import argparse
import gc
import importlib
import json
import os
import sys
import time
import traceback


def load_prop(pid):
    return importlib.import_module(f'vsim.props.{pid.lower()}')


def load_known(pid):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    if not os.path.isfile(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def is_known(pid, v, known):
    return any(k['kind'] == v.kind and k['sig'] == v.sig for k in known)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--seed', type=int, required=True)
    ap.add_argument('--tier', required=True)
    ap.add_argument('--first', type=int, required=True)
    ap.add_argument('--step', type=int, required=True)
    ap.add_argument('--runs', type=int, required=True)
    ap.add_argument('--budget', type=float, required=True)
    ap.add_argument('--scratch', required=True)
    ap.add_argument('--out', required=True)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--log-events', action='store_true')
    args = ap.parse_args()

    t0 = time.monotonic()
    out = open(args.out, 'w')

    def emit(rec):
        out.write(json.dumps(rec) + '\n')
        out.flush()

    from vsim import core, seams
    seams.quiet_and_import()
    prop = load_prop(args.pid)
    known = load_known(args.pid)
    # most of the time goes into building and compiling expressions, with few cycles to collect
    gc.collect()
    gc.freeze()
    gc.set_threshold(200000, 20, 20)
    scratch = os.path.join(args.scratch, 'run')
    emit({'type': 'ready', 't': time.monotonic() - t0})

    def one(scenario, i):
        ctx, vs = core.execute(prop, scenario, scratch, verbose=args.verbose)
        rec = {'type': 'run', 'i': i, 'digest': ctx.digest(), 'nontrivial': bool(ctx.nontrivial),
               'faults': ctx.faults, 'probes': ctx.probes, 'stats': ctx.stats,
               'sim_time': ctx.sim_time, 'worst': ctx.worst, 'nev': len(ctx.events)}
        if args.log_events:
            rec['events'] = [str(e) for e in ctx.events]
        new = [v for v in vs if not is_known(args.pid, v, known)]
        old = [v for v in vs if is_known(args.pid, v, known)]
        rec['known'] = sorted({(v.kind, v.sig) for v in old})
        if new:
            rec['violation'] = {'kind': new[0].kind, 'sig': new[0].sig, 'message': new[0].message[:4000]}
        emit(rec)
        return rec, new

    if args.replay:
        with open(args.replay) as f:
            rp = json.load(f)
        rec, new = one(rp['scenario'], rp.get('run', -1))
        emit({'type': 'done'})
        return

    i = args.first
    while i < args.runs and time.monotonic() - t0 < args.budget:
        rng = core.rng_for(args.seed, args.pid, i)
        try:
            scenario = prop.gen(rng, i, args.tier)
            emit({'type': 'start', 'i': i})
            rec, new = one(scenario, i)
        except Exception:
            emit({'type': 'error', 'i': i, 'tb': traceback.format_exc()[-6000:]})
            break
        if i < 3 or new:
            emit({'type': 'sample', 'i': i, 'scenario': scenario})
        if new:
            v = new[0]
            emit({'type': 'minimising', 'i': i})
            best, tried = core.minimise(prop, scenario, v.kind, v.sig, scratch,
                                        time.monotonic() + float(os.environ.get('VSIM_MINIMISE_S', '60')))
            emit({'type': 'violation', 'i': i, 'kind': v.kind, 'sig': v.sig, 'message': v.message[:4000],
                  'scenario': best, 'original': scenario, 'tried': tried})
            break
        i += args.step
    emit({'type': 'done', 't': time.monotonic() - t0})


if __name__ == '__main__':
    main()
    sys.stdout.flush()
    # PETSc/MPI finalisation is not part of the simulated system
    os._exit(0)
