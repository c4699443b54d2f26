"""
Single source of properties.jsonl, MANIFEST.json and checks.json:  python3 tools/meta.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, rule, real, stub, assume, note, quick, thorough,
         state=(), stall=300):
    P.append(dict(locals()))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(locals()))


REAL_SOLVE = 'thetis solvers, equations, time integrators, exporters, callbacks and options from /repo; Firedrake, PyOP2, PETSc, h5py (real code, one MPI rank, in process)'
STUB_DISK = 'file system below the scratch root: operations go through a fault-injecting seam (open/write/rename/remove, h5py and checkpoint files), a crash freezes the image that survives'
STUB_KILL = 'process death: an exception no handler catches plus the frozen disk image; a restart builds every object anew in the same interpreter'

exec(open(os.path.join(HERE, 'tools', 'properties_src.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P + NA:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'],
                             'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
            if p.get('state'):
                d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
            if p.get('observe'):
                d['anchors']['observe_at'] = list(p['observe'])
            d['anchors']['hook_needed'] = None
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    checks = {}
    man = {'version': 1,
           'setup_cmd': 'bash tools/setup.sh',
           'hooks': {'guard': 'none', 'enable': 'no hooks are needed in /repo: the simulator replaces file system, HDF5, clock and log seams inside its own process',
                     'source_commits': []},
           'checks': [], 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
           'notes': 'Deterministic simulation with fault injection; see DESIGN.md. VERIF_SEED selects the seed; ./check <ID> --replay FILE re-executes a replay file.'}
    for p in P:
        checks[p['id']] = {'level': 'exploration', 'rule': p['rule'], 'real': p['real'], 'stub': p['stub'], 'assumptions': p['assume'],
                           'stall_s': p['stall'],
                           'quick': {'runs': p['quick'][0], 'budget_s': p['quick'][1]},
                           'thorough': {'runs': p['thorough'][0], 'budget_s': p['thorough'][1]}}
        man['checks'].append({'property': p['id'], 'quick_cmd': f"./check {p['id']} --tier quick", 'thorough_cmd': f"./check {p['id']} --tier thorough",
                              'evidence_file': f"evidence/{p['id']}.json",
                              'technique': 'deterministic simulation with seeded fault injection',
                              'level': 'exploration', 'level_note': p['note']})
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    json.dump(checks, open(os.path.join(HERE, 'checks.json'), 'w'), indent=1)
    print(len(P), 'claimed', len(NA), 'not applicable')


main()
