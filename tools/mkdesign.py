"""Writes DESIGN.md from tools/design_head.md, the checks (RULE, TESTS, PLAN) and tools/design_tail.md."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CODE = '''
import sys, json, importlib
sys.path[:0] = ['/verif', '/repo']
out = {}
for i in range(1, 100):
    try:
        m = importlib.import_module('pbt.props.c%02d' % i)
    except ImportError:
        break
    out['C%02d' % i] = [m.RULE, [(t[0], list(t[2]) if isinstance(t[2], (list, tuple)) else list(t[2:])) for t in m.TESTS]]
print(json.dumps(out))
'''
checks = json.loads(subprocess.check_output(['/opt/venv/bin/python', '-W', 'ignore', '-c', CODE]).decode())
plan = {}
for block in open(os.path.join(HERE, 'design_props.md')).read().split('\n## ')[1:]:
    head, body = block.split('\n', 1)
    plan[head.strip()] = body.strip()
out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip() + '\n']
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    rule, tests = checks[p['id']]
    out.append('### {0} {1}\n\n{2}\n\nNon-trivial: {3}.\n\nTests: {4}.\n'.format(
        p['id'], p['title'], plan[p['id']], rule,
        ', '.join('{0} {1:,} / {2:,}'.format(n, *q) for n, q in tests)))
out.append(open(os.path.join(HERE, 'design_tail.md')).read().lstrip())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
