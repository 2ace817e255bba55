"""entry point: main.py <property> ..."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
sys.setrecursionlimit(30000)

import build
import spec


def known():
    f = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: '):
                out.append(l[7:])
    return out


def run(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    mod = importlib.import_module('props.' + prop.lower())
    ck = spec.Check(prop)
    ck.tier = tier
    fail = None
    try:
        mod.run(ck)
    except build.BuildError as e:
        ck.bad('the analysed tree compiles', 'build', str(e)[-1500:])
    except spec.Lost as e:
        fail = str(e)
        ck.undecided('the rules apply', 'anchor', fail)
    except spec.Missing as e:
        ck.bad('the anchors of the property exist', 'anchor', str(e))
    except Exception as e:   # a limit of the rule code itself is never a verdict
        import traceback
        fail = traceback.format_exc()
        ck.undecided('the rules apply', 'internal', fail[-600:])
    floor = getattr(mod, 'FLOOR', 1) if fail is None else 0
    nob = len(ck.obl)
    viol = [o for o in ck.obl if o[2] == 'violation']
    und = [o for o in ck.obl if o[2] == 'undecided']
    if nob < floor and not viol:
        ck.undecided('at least %d obligations are generated' % floor, 'coverage', 'only %d obligations' % nob)
        und = [o for o in ck.obl if o[2] == 'undecided']
    kn = known()
    seen = []
    newv = []
    for o in viol:
        key = 'property=%s %s @ %s' % (prop, o[0], o[1])
        if key in kn:
            if key not in seen:
                seen.append(key)
        else:
            newv.append(o)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(mod, 'LEVEL', 'other'),
        'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'rules': ck.rules or sorted({o[0] for o in ck.obl}),
            'obligations': nob,
            'discharged': sum(1 for o in ck.obl if o[2] == 'ok'),
            'undecided': [{'rule': o[0], 'site': o[1], 'why': o[3][:400]} for o in und],
            'violations': len(newv), 'known_findings': seen,
            'functions_analysed': len(ck.funcs), 'functions': sorted(ck.funcs)[:400],
            'paths': ck.paths_n, 'call_sites': ck.calls_n, 'basic_blocks_executed': ck.steps,
            'sites': [{'rule': o[0], 'site': o[1], 'status': o[2], 'detail': o[3][:200]} for o in ck.obl][:600],
        },
    }
    ev['coverage'].update(ck.extra)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d paths, %.1fs' % (
        prop, nob, ev['coverage']['discharged'], len(und), len(newv), len(ck.funcs), ck.paths_n, time.time() - t0))
    for o in und:
        print('  undecided: %s @ %s: %s' % (o[0], o[1], o[3][:300]))
    for s in seen:
        print('KNOWN-FINDING: ' + s)
    if newv:
        rp = os.path.join(VERIF, 'evidence', prop + '.report.txt')
        with open(rp, 'w') as f:
            for o in newv:
                f.write('rule: %s\nsite: %s\nfinding: %s\n\n' % (o[0], o[1], o[3]))
        for o in newv[:12]:
            print('  violated: %s @ %s\n     %s' % (o[0], o[1], o[3][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    rc = 0
    for p in sys.argv[1:]:
        rc = max(rc, run(p))
    sys.exit(rc)
