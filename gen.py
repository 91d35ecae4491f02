#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the metadata kept beside the rules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.rules import PROPERTIES            # noqa: E402
from sa.rules.conc_futures import MODEL_EXPLAIN         # noqa: E402
from sa.unclaimed import UNCLAIMED         # noqa: E402

LEVEL_NOTE = ('Static: all abstract paths of the named code are enumerated from the current source and every obligation '
              'is matched on every path (loops unrolled to a fixed bound with state forgotten at the head; unmodelled '
              'calls may raise anything). Trusted: the path engine, the Python semantics it models, and the rule text; '
              'constructs of unrecognised shape are reported as undecided, not as violations. ')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for pid, s in sorted({**PROPERTIES, **UNCLAIMED}.items()):
            over, text = s['over']
            assert len(s['title']) <= 80, pid
            f.write(json.dumps({
                'id': pid, 'title': s['title'], 'statement': s['statement'],
                'quantifier': {'over': over, 'text': text},
                'why_tests_cant': s['why'],
                'anchors': {'files': s['files'], 'mechanism': [{'name': n, 'where': w} for n, w in s['mechanism']]},
            }) + '\n')
    m = {
        'version': 1,
        'setup_cmd': 'python3 -B check.py --selfcheck',
        'checks': [{
            'property': pid, 'quick_cmd': 'python3 -B check.py %s quick' % pid,
            'thorough_cmd': 'python3 -B check.py %s thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': s['technique'], 'level': 'other', 'level_note': LEVEL_NOTE + s.get('note', ''),
        } for pid, s in sorted(PROPERTIES.items())],
        'not_applicable': [{'property': pid, 'reason': s['reason']} for pid, s in sorted(UNCLAIMED.items())],
        'notes': 'All checks are pure source analyses (Python 3.12 standard library); nothing of /repo is executed. '
                 'Generated by gen.py from sa/rules/*.py and sa/unclaimed.py.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


def design():
    with open(os.path.join(HERE, 'tools', 'design.md')) as f:
        t = f.read()
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        t = t.replace('@FIXED@', str(len(json.load(f)['fixed'])))
    with open(os.path.join(HERE, 'sa', 'expect.json')) as f:
        expect = json.load(f)
    seeds = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    top = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(top)):
        with open(os.path.join(top, d, 'meta.json')) as f:
            m = json.load(f)
        seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], 'check %s' % m['property']))
    t = t.replace('@SEEDS@', '\n'.join(seeds) + '\n')
    out = []
    for pid, s in PROPERTIES.items():
        out.append('* **%s %s** (n=%s; %s). %s Rules: %s. Code: %s.' % (
            pid, s['title'], expect.get(pid, '?'), s['over'][1], 'Decision tables.' if s['explain'] is MODEL_EXPLAIN else s['explain'],
            ', '.join('`%s.%s`' % (r.__module__.split('.')[-1], r.__name__) for r in s['rules']), ', '.join('`%s`' % x for x in s['files'])))
    t = t.replace('@PROPS@', '\n'.join(out) + '\n')
    t = t.replace('@NA@', '\n'.join('* **%s %s.** %s' % (pid, s['title'], s['reason']) for pid, s in sorted(UNCLAIMED.items())))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(t)


main()
design()
