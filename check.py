#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]

Decides one property of /repo's current source (or of the tree named by SATELLA_REPO) by static
analysis. Exit 0: holds (known findings are listed); exit 1: VIOLATION line; exit 2: analysis broken."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)

from sa.core import Ctx                       # noqa: E402
from sa.rules import PROPERTIES               # noqa: E402


LAST = {}


def known(prop):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            d = json.load(f)
    except FileNotFoundError:
        return {}
    return {x['key']: x for x in d.get('known', []) if x['property'] == prop}


def minimum(prop):
    try:
        with open(os.path.join(HERE, 'sa', 'expect.json')) as f:
            return json.load(f).get(prop, 1)
    except FileNotFoundError:
        return 1


def run(prop, tier):
    t0 = time.time()
    spec = PROPERTIES[prop]
    ctx = Ctx(prop, tier)
    if ctx.p.broken:
        for m, e in ctx.p.broken:
            ctx.notes.append('unparsable module %s: %s' % (m, e))
    for r in spec['rules']:
        with ctx.item(r.__name__, '<rule>'):
            r(ctx)
    kn = known(prop)
    viol = [v for v in ctx.violations.values() if v.key not in kn]
    listed = [v for v in ctx.violations.values() if v.key in kn]
    wall = round(time.time() - t0, 3)
    decided = len(set(ctx.obligations))
    LAST['decided'] = decided
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, prop + '.replay.json')
    evidence = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'level': 'other',
            'explanation': 'Static analysis of the source tree. %s' % spec['explain'],
            'modules_parsed': len(ctx.p.modules),
            'functions_analysed': len(ctx.funcs),
            'paths_enumerated': ctx.npaths,
            'events_inspected': ctx.nevents,
            'obligations_decided': decided,
            'obligations_undecided': len(ctx.undecided),
            'rules': ctx.rules,
            'path_enumeration_truncated_in': sorted(ctx.truncated),
            'undecided': [list(x) for x in ctx.undecided[:40]],
            'sample_obligations': ['%s @ %s' % o for o in sorted(set(ctx.obligations))[:12]],
            'known_findings_seen': [v.key for v in listed],
        },
        'wall_s': wall,
        'assumptions': spec.get('assumptions', []) + ctx.notes,
        'violations': [v.asdict() for v in viol],
    }
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    print('%s %s: %d modules, %d functions, %d paths, %d obligations decided, %d undecided, %.2fs' % (
        prop, tier, len(ctx.p.modules), len(ctx.funcs), ctx.npaths, decided, len(ctx.undecided), wall))
    for r, d in sorted(ctx.rules.items()):
        print('  rule %s: %s [%d instances]' % (r, d, len({o for o in ctx.obligations if o[0] == r})))
    for u in ctx.undecided:
        print('  undecided %s @ %s: %s' % u)
    for v in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, v.key, kn[v.key]['what']))
    if viol:
        with open(replay, 'w') as f:
            json.dump([v.asdict() for v in viol], f, indent=1, default=str)
        for v in viol:
            print('  %s:%s [%s] %s: %s' % (v.where, v.line, v.rule, v.construct, v.msg))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    need = minimum(prop)
    if decided < max(1, int(need * 0.6)) or ctx.p.broken:
        print('ANALYSIS-BROKEN %s: %d obligations decided, %d confirmed' % (prop, decided, need))
        return 2
    return 0


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    if '--selfcheck' in sys.argv:
        print('%d properties, %d modules parsed' % (len(PROPERTIES), len(Ctx('selfcheck').p.modules)))
        sys.exit(0)
    if '--expect' in sys.argv:
        EXPECT = {}
        for p in (PROPERTIES if not a else a):
            run(p, 'quick')
            EXPECT[p] = LAST['decided']
        path = os.path.join(HERE, 'sa', 'expect.json')
        old = json.load(open(path)) if os.path.exists(path) else {}
        old.update(EXPECT)
        with open(path, 'w') as f:
            json.dump({k: v for k, v in sorted(old.items()) if k in PROPERTIES}, f, indent=1)
        sys.exit(0)
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if a[0] == 'all':
        rc = 0
        for p in PROPERTIES:
            rc = max(rc, run(p, tier))
        sys.exit(rc)
    sys.exit(run(a[0], tier))
