#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the definitions in tools/bugs.py.

usage: plant.py make ID...      writes patch.diff, demo.sh, demo.py, meta.json
       plant.py verify ID...    demo and stable tests with and without it
       plant.py catch ID... [-- PROP...]   runs the checks against it
(`verify' and `catch' apply the patch to /repo and undo it straight after.)
"""
import importlib.util
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
REPO = '/repo'
DEMO = '''"""Exits with 0 when every answer is the right one."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from ground.base import get_context
from orient import planar
c = get_context()
P, S, C = c.point_cls, c.segment_cls, c.contour_cls
MS, PG, MP = c.multisegment_cls, c.polygon_cls, c.multipolygon_cls


def build(g):
    k, d = g
    if k == 'point':
        return P(*d)
    if k == 'segment':
        return S(P(*d[0]), P(*d[1]))
    if k == 'multisegment':
        return MS([S(P(*a), P(*b)) for a, b in d])
    if k in ('contour', 'region'):
        return C([P(*v) for v in d])
    if k == 'multiregion':
        return [build(('region', r)) for r in d]
    if k == 'polygon':
        return PG(build(('region', d[0])), build(('multiregion', d[1])))
    return MP([build(('polygon', p)) for p in d])


CASES = [
    %s
]
wrong = 0
for test, goal, expected in CASES:
    f = getattr(planar, '%%s_in_%%s' %% (test[0], goal[0]))
    try:
        actual = f(build(test), build(goal)).name
    except Exception as e:
        actual = repr(e)
    if actual != expected:
        wrong += 1
        print('%%s in %%s: expected %%s, got %%s' %% (test, goal, expected,
                                                  actual))
sys.exit(1 if wrong else 0)
'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
exec timeout -k 5 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def bugs():
    p = os.path.join(HERE, 'tools', 'bugs.py')
    s = importlib.util.spec_from_file_location('bugs', p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m.BUGS


def git(*a, **k):
    return subprocess.run(['git', '-C', REPO] + list(a), check=True,
                          capture_output=True, text=True, **k).stdout


def clean():
    git('checkout', '--', '.')


def make(i, b):
    assert not git('status', '--porcelain')
    d = os.path.join(SEEDED, i)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in b['edits']:
            p = os.path.join(REPO, 'orient/core', f)
            s = open(p).read()
            n = b.get('count', 1)
            assert s.count(old) == n, (i, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = git('diff')
    finally:
        clean()
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    demo = b.get('demo')
    if demo is None:
        demo = DEMO % ',\n    '.join(repr(c) for c in b['cases'])
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'],
               'what_it_breaks': b['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def demo(i):
    return subprocess.run(['bash', os.path.join(SEEDED, i, 'demo.sh')],
                          cwd=REPO, capture_output=True, text=True)


def stable():
    out = '/tmp/plant.json'
    subprocess.run(['bash', '/opt/vp/test.sh', out], capture_output=True)
    r = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))
    return r, base


def main():
    cmd, rest = sys.argv[1], sys.argv[2:]
    props = []
    if '--' in rest:
        k = rest.index('--')
        rest, props = rest[:k], rest[k + 1:]
    bs = bugs()
    for i in rest or list(bs):
        b = bs[i]
        if cmd == 'make':
            make(i, b)
            r = demo(i)
            print(i, 'unchanged:', r.returncode, r.stdout.strip()[-600:],
                  r.stderr[-300:], flush=True)
            git('apply', os.path.join(SEEDED, i, 'patch.diff'))
            try:
                r = demo(i)
            finally:
                clean()
            print(i, 'planted:', r.returncode, r.stdout.strip()[-300:],
                  r.stderr[-300:], flush=True)
        elif cmd == 'verify':
            git('apply', os.path.join(SEEDED, i, 'patch.diff'))
            try:
                r, base = stable()
            finally:
                clean()
            bad = failed(r, base)
            print(i, 'tests:', 'fine' if not bad else bad[:5], flush=True)
        elif cmd == 'catch':
            git('apply', os.path.join(SEEDED, i, 'patch.diff'))
            try:
                for p in props or [b['property']]:
                    r = subprocess.run(['python3-vt', 'check.py', p, 'quick'],
                                       cwd=HERE, capture_output=True,
                                       text=True)
                    print(i, p, 'rc', r.returncode, r.stdout[-900:].strip(),
                          flush=True)
            finally:
                clean()


def failed(r, base):
    def names(x):
        if isinstance(x, dict):
            for k in ('stable', 'passed', 'tests'):
                if k in x:
                    return names(x[k])
            return set(x)
        return set(x)
    return sorted(names(base) - names(r))


if __name__ == '__main__':
    main()
