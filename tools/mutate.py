#!/usr/bin/env python3
"""Small changes of the code under test, and which of them the search sees.

usage: mutate.py FILE|all SECONDS [OUT]     (under python3-vt)
A development tool: works on copies in a scratch directory only.  What it
lists as `quiet' is either equivalent or something the checks have to learn.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
CORE = os.path.join(REPO, 'orient', 'core')
NAMES = {'start': 'end', 'end': 'start', 'left': 'right', 'right': 'left',
         'min_x': 'max_x', 'max_x': 'min_x', 'min_y': 'max_y',
         'max_y': 'min_y', 'min': 'max', 'max': 'min', 'below': 'above',
         'above': 'below', 'all': 'any', 'any': 'all',
         'original_start': 'start', 'original_end': 'end'}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE,
       ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
RELATIONS = ('DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'COVER', 'ENCLOSES',
             'COMPOSITE', 'EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN')


def sites(tree):
    """Functions that change one node of a copy of the tree."""
    nodes = list(ast.walk(tree))
    ann = set()
    for x in nodes:
        for f in ('annotation', 'returns'):
            a = getattr(x, f, None)
            if a is not None:
                ann |= {id(y) for y in ast.walk(a)}
    res = []

    def add(i, what, fn):
        res.append((i, what, fn))
    for i, x in enumerate(nodes):
        if id(x) in ann:
            continue
        if isinstance(x, ast.Compare):
            for k, op in enumerate(x.ops):
                for o in CMP.get(type(op), []):
                    add(i, type(op).__name__ + '->' + o.__name__,
                        lambda n, k=k, o=o: n.ops.__setitem__(k, o()))
        elif isinstance(x, ast.BoolOp):
            o = ast.Or if isinstance(x.op, ast.And) else ast.And
            add(i, 'bool->' + o.__name__,
                lambda n, o=o: setattr(n, 'op', o()))
            for k in range(len(x.values)):
                def drop(n, k=k):
                    del n.values[k]
                    if len(n.values) == 1:
                        n.values.append(copy.deepcopy(n.values[0]))
                add(i, 'drop operand %d' % k, drop)
        elif isinstance(x, (ast.If, ast.IfExp, ast.While)):
            add(i, 'negate', lambda n: setattr(n, 'test', ast.UnaryOp(
                ast.Not(), n.test)))
            if isinstance(x, ast.If):
                for v in (True, False):
                    add(i, 'if %s' % v, lambda n, v=v: setattr(
                        n, 'test', ast.Constant(v)))
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            add(i, 'drop not', lambda n: (setattr(n, 'op', ast.Not()),
                                          setattr(n, 'operand', ast.UnaryOp(
                                              ast.Not(), n.operand))))
        elif isinstance(x, ast.Constant) and type(x.value) is int:
            add(i, '+1', lambda n: setattr(n, 'value', n.value + 1))
            add(i, '-1', lambda n: setattr(n, 'value', n.value - 1))
        elif isinstance(x, ast.Constant) and type(x.value) is bool:
            add(i, 'flip', lambda n: setattr(n, 'value', not n.value))
        elif isinstance(x, ast.Attribute):
            if x.attr in NAMES and isinstance(x.ctx, ast.Load):
                add(i, x.attr + '->' + NAMES[x.attr],
                    lambda n: setattr(n, 'attr', NAMES[n.attr]))
            if x.attr in RELATIONS:
                k = RELATIONS.index(x.attr)
                for d in (1, 3):
                    add(i, x.attr + '->+%d' % d,
                        lambda n, k=k, d=d: setattr(
                            n, 'attr', RELATIONS[(k + d) % 11]))
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            if x.id in NAMES:
                add(i, x.id + '->' + NAMES[x.id],
                    lambda n: setattr(n, 'id', NAMES[n.id]))
        elif isinstance(x, ast.Call) and len(x.args) > 1:
            def swap(n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
            add(i, 'swap arguments', swap)
        elif isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add,
                                                            ast.Sub)):
            add(i, '+ <-> -', lambda n: setattr(
                n, 'op', ast.Sub() if isinstance(n.op, ast.Add)
                else ast.Add()))
        if hasattr(x, 'body') and isinstance(x.body, list) and not isinstance(
                x, (ast.Module, ast.ClassDef)):
            for f in ('body', 'orelse'):
                for k, st in enumerate(getattr(x, f, None) or []):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr,
                                       ast.Continue, ast.Break, ast.For)):
                        if isinstance(st, ast.Expr) and isinstance(
                                st.value, ast.Constant):
                            continue
                        add(i, 'delete: ' + ast.unparse(st)[:60],
                            lambda n, f=f, k=k: getattr(
                                n, f).__setitem__(k, ast.Pass()))
    return res


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}
    for i, what, fn in sites(tree):
        t = ast.parse(src)
        n = list(ast.walk(t))[i]
        fn(n)
        try:
            out = ast.unparse(ast.fix_missing_locations(t))
            compile(out, path, 'exec')
        except Exception:
            continue
        if out in seen:
            continue
        seen.add(out)
        yield getattr(n, 'lineno', 0), what, out


def run(job):
    name, k, line, what, out, secs, root = job
    d = os.path.join(root, '%s_%d' % (name[:-3], k))
    shutil.copytree(os.path.join(REPO, 'orient'), os.path.join(d, 'orient'))
    with open(os.path.join(d, 'orient', 'core', name), 'w') as f:
        f.write(out)
    code = ('import sys; sys.path[:0] = [%r]\nimport check\n'
            'from lib import search\nimport props as P\n'
            'm = ([("relate", {"pairs": P.PAIRS}, 3), '
            '("locate", {"kinds": P.LP + P.AP}, 1), '
            '("converse", {"pairs": P.LIKE}, 1), ("rewrite", {"pairs": '
            'P.PAIRS}, 1), ("frame", {"pairs": P.PAIRS}, 1)])\n'
            'r = search.run(5, %f, m)\n'
            'print(r["n"], bool(r["violation"]))' % (HERE, secs))
    try:
        p = subprocess.run(['python3-vt', '-c', code], capture_output=True,
                           text=True, timeout=secs * 3 + 30,
                           env=dict(os.environ, PYVC_REPO=d))
        o = p.stdout.strip() or 'error ' + p.stderr.strip()[-100:]
    except subprocess.TimeoutExpired:
        o = 'timeout True'
    shutil.rmtree(d)
    return {'file': name, 'k': k, 'line': line, 'what': what, 'result': o,
            'quiet': o.endswith('False'), 'source': out}


def main():
    files, secs = sys.argv[1], float(sys.argv[2])
    names = (sorted(f for f in os.listdir(CORE) if f.endswith('.py')
                    and f != '__init__.py' and f != 'hints.py')
             if files == 'all' else files.split(','))
    root = tempfile.mkdtemp(prefix='mutants')
    jobs = [(n, k, line, what, out, secs, root) for n in names
            for k, (line, what, out) in enumerate(
                mutants(os.path.join(CORE, n)))]
    print(len(jobs), 'mutants', flush=True)
    res = []
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
        for r in ex.map(run, jobs):
            res.append(r)
            if r['quiet']:
                print('quiet', r['file'], r['k'], r['line'], r['what'],
                      r['result'], flush=True)
    shutil.rmtree(root)
    print(sum(r['quiet'] for r in res), 'of', len(res), 'quiet')
    if len(sys.argv) > 3:
        with open(sys.argv[3], 'w') as f:
            json.dump([r for r in res if r['quiet']], f, indent=1)


if __name__ == '__main__':
    main()
