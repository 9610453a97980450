#!/usr/bin/env python3
"""One property: discharge its obligations on /repo's current source.

usage: check.py PROPERTY [quick|thorough]      (under python3-vt)
       check.py --replay FILE
"""
import json
import os
import signal
import sys
import tempfile
import time
import traceback
from multiprocessing import get_context

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('PYVC_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
sys.path[1:1] = [REPO, SITE]
sys.dont_write_bytecode = True
CORES = 8

import props  # noqa


def job_group(name, tier):
    from pyvc import model, specs
    fn = specs.GROUPS[name]
    M = model.Modules()
    res = fn(M)
    s = res if isinstance(res, dict) else res.summary()
    s['group'] = name
    return s


def job_search(seed, seconds, modes):
    from lib import search
    return search.run(seed, seconds, modes)


def child(fn, args, path):
    os.setpgid(0, 0)
    try:
        r = {'ok': fn(*args)}
    except BaseException as e:
        r = {'error': '%s: %s' % (type(e).__name__, e),
             'trace': traceback.format_exc()[-3000:]}
    with open(path + '.part', 'w') as f:
        json.dump(r, f, default=str)
    os.rename(path + '.part', path)
    os._exit(0)


def run_jobs(jobs, limit, stop=None, total=None):
    """jobs: list of (key, fn, args).  Returns {key: result}."""
    mp = get_context('fork')
    res, active, todo = {}, {}, list(jobs)
    end = time.time() + (total or 10**9)
    with tempfile.TemporaryDirectory() as tmp:
        n = 0
        while todo or active:
            while todo and len(active) < CORES:
                key, fn, args = todo.pop(0)
                path = os.path.join(tmp, str(n))
                n += 1
                p = mp.Process(target=child, args=(fn, args, path))
                p.start()
                active[key] = (p, path, time.time())
            time.sleep(.02)
            for key, (p, path, t0) in list(active.items()):
                done = os.path.exists(path)
                late = time.time() - t0 > limit or time.time() > end
                if not done and not late and p.is_alive():
                    continue
                if not done and not late:
                    time.sleep(.1)
                    done = os.path.exists(path)
                if done:
                    with open(path) as f:
                        res[key] = json.load(f)
                else:
                    res[key] = {'error': 'no answer in time'
                                if late else 'the prover ended'}
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.join(5)
                del active[key]
                if stop is not None and stop(res[key]):
                    for q, _, _ in active.values():
                        try:
                            os.killpg(q.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        q.join(5)
                    return res
    return res


def found(r):
    return bool(r.get('ok') and r['ok'].get('violation')) or 'error' in r


def search(prop, modes, seed, seconds, salt):
    jobs = [(i, job_search, (seed * 1000003 + salt * 101 + i * 7919,
                             seconds, modes)) for i in range(CORES)]
    out = run_jobs(jobs, seconds + 60,
                   lambda r: bool(r.get('ok') and r['ok'].get('violation')))
    n, hist, v, errors = 0, {}, None, []
    for r in out.values():
        if 'error' in r:
            errors.append(r['error'] + r.get('trace', ''))
            continue
        r = r['ok']
        n += r['n']
        for k, c in r['hist'].items():
            hist[k] = hist.get(k, 0) + c
        if r['violation'] is not None and (
                v is None or len(str(r['violation'])) < len(str(v))):
            v = r['violation']
    return {'n': n, 'hist': hist, 'violation': v, 'errors': errors}


def expected_covers():
    p = os.path.join(HERE, 'pyvc', 'covers.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {}


def prove(groups, tier):
    """Runs the groups, returns (summaries, undischarged)."""
    res = run_jobs([(g, job_group, (g, tier)) for g in groups],
                   300 if tier == 'quick' else 600, total=480)
    covers = expected_covers()
    bad, sums = [], []
    for g in groups:
        r = res[g]
        if 'error' in r:
            bad.append({'group': g, 'obligation': g + ': verification '
                        'conditions generated', 'status': 'undecided',
                        'detail': r['error'] + '\n' + r.get('trace', '')})
            sums.append({'group': g, 'functions': [], 'obligations': 1,
                         'discharged': 0, 'vcs': 0, 'vcs_discharged': 0,
                         'solver_s': 0, 'backends': {}, 'paths': 0,
                         'queries': 0, 'loop_states': 0, 'assumed': []})
            continue
        s = r['ok']
        labels = s.pop('labels')
        ok = [k for k, v in labels.items()
              if not v['failed'] and not v['undecided']]
        for f in s.pop('failures'):
            bad.append({'group': g, 'obligation': f['label'],
                        'status': f['status'], 'detail': f['detail'],
                        'path': f['path'], 'note': f['note']})
        und = s.pop('undecided')
        for u in und:
            bad.append({'group': g, 'obligation': g + ': the proof state '
                        'space is closed', 'status': 'undecided',
                        'detail': u})
        # an unfinished exploration discharges nothing
        s['discharged'] = len(ok) if not und else 0
        if s['vcs'] == 0:
            bad.append({'group': g, 'obligation': g + ': at least one '
                        'verification condition', 'status': 'failed',
                        'detail': 'no obligation was generated'})
        if not und and s['discharged'] == s['obligations']:
            miss = [c for c in covers.get(g, []) if not s['covers'].get(c)]
            for c in miss:
                bad.append({'group': g, 'obligation': g + ': reachable: ' + c,
                            'status': 'failed',
                            'detail': 'no path reaches: ' + c})
        sums.append(s)
    return sums, bad


TRUSTED = [
    'CPython 3.12 executes the functions (they are run, not translated); the '
    'engine pyvc (/verif/pyvc/engine.py): path enumeration, loop-head '
    'state sets, symbolic sequences; z3 5.3.2, cvc5 1.1.2',
    'coordinates are exact numbers (mathematical reals in the proofs): '
    'rounding of floats is outside of the claim',
    'the frame: geometries are passed as immutable symbolic objects, a '
    'write to a coordinate is refused',
]


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    prefixes, modes = props.PROPS[prop]
    from pyvc import specs
    groups = [g for g in specs.GROUPS
              if any(g == p or g.startswith(p + '.') for p in prefixes)]
    assert groups, prop
    groups.sort(key=lambda g: g not in props.HEAVY)
    sums, bad = prove(groups, tier)
    t1 = time.time()
    secs = {'quick': 45, 'thorough': 420}[tier]
    if bad:
        secs = {'quick': 240, 'thorough': 420}[tier]
    if os.environ.get('PYVC_SEARCH_S'):
        secs = float(os.environ['PYVC_SEARCH_S'])
    s = search(prop, modes, seed, secs, 1)
    violations = []
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    path = os.path.join('evidence', 'replay', prop + '.json')
    v = s['violation']
    if bad or v is not None or s['errors'] and not s['n']:
        violations.append(1)
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump({'property': prop, 'undischarged': bad,
                       'failing_input': v and encode(v),
                       'search': {'inputs': s['n'], 'errors': s['errors']}},
                      f, indent=1, default=str)
        for b in bad[:8]:
            print('undischarged obligation [%s] %s (%s)' % (
                b['group'], b['obligation'], b['status']))
        if v is not None:
            print('failing input: %s: expected %s, got %s for test %s, goal '
                  '%s' % (v['what'], v['expected'], v['actual'],
                          v.get('test'), v.get('goal')))
        for e in s['errors'][:2]:
            print('search error: ' + e[:500])
    stand_ins = [x for x in sums if 'bounded' in x]
    sums = [x for x in sums if 'bounded' not in x]
    ob = sum(x['obligations'] for x in sums)
    di = sum(x['discharged'] for x in sums)
    backends = {}
    for x in sums:
        for k, n in x['backends'].items():
            backends[k] = backends.get(k, 0) + n
    cov = {
        'obligations': ob, 'discharged': di,
        'checker_cmd': 'cd /verif && python3-vt check.py %s %s' % (prop,
                                                                   tier),
        'trusted_base': TRUSTED + sorted({a for x in sums
                                          for a in x.get('assumed', [])}),
        'groups': [{k: x[k] for k in (
            'group', 'functions', 'obligations', 'discharged', 'vcs',
            'vcs_discharged', 'paths', 'loop_states', 'queries', 'solver_s',
            'backends')} for x in sums],
        'functions_under_contract': sorted({f for x in sums
                                            for f in x['functions']}),
        'verification_conditions': sum(x['vcs'] for x in sums),
        'solver_s': round(sum(x['solver_s'] for x in sums), 2),
        'back_ends': backends, 'proof_wall_s': round(t1 - t0, 1),
        'bounded_stand_ins': [
            {'label': 'bounded: never counted as proved', 'group': x['group'],
             'functions': x['stands_in_for'], 'bound': x['bounded'],
             'cases': x['vcs'], 'as_specified': x['vcs_discharged'],
             'seconds': x['seconds']} for x in stand_ins],
        'bounded_search': {
            'label': 'bounded: never counted as proved',
            'inputs': s['n'], 'classes': len(s['hist']),
            'histogram': dict(sorted(s['hist'].items())[:400]),
            'seconds': secs, 'seed': seed,
            'bound': 'random valid geometries on grids of 3 to 20 points a '
                     'side and their exact affine images',
            'modes': [m[0] for m in modes]},
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': cov,
          'assumptions': sorted({a for x in sums
                                 for a in x.get('assumed', [])}) + TRUSTED,
          'wall_s': round(time.time() - t0, 1),
          'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violations:
        print('VIOLATION property=%s replay=%s%s' % (
            prop, path, '' if v is not None else ' no-failing-input-found'))
        return 1
    print('%s holds: %d of %d obligations discharged in %.1f s, %d inputs '
          'searched' % (prop, di, ob, t1 - t0, s['n']))
    return 0


def known(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    res = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('open: property=%s ' % prop):
                res.append(line.split(' ', 2)[2].strip())
    return res


def encode(v):
    def e(x):
        if isinstance(x, (list, tuple)):
            return [e(y) for y in x]
        if isinstance(x, dict):
            return {k: e(y) for k, y in x.items()}
        return x if isinstance(x, (int, str, type(None))) else str(x)
    return e(v)


def decode(x):
    from fractions import Fraction
    if isinstance(x, list):
        return [decode(y) for y in x]
    if isinstance(x, str) and x.lstrip('-').replace('/', '').isdigit():
        return Fraction(x)
    return x


def replay(path):
    from lib import real as R, search as S
    d = json.load(open(path))
    v = d['failing_input']
    if v is None:
        print(json.dumps(d['undischarged'], indent=1))
        return 1
    t, g = decode(v['test']), decode(v['goal'])
    a = S.replayed({'test': t, 'goal': g}, R)
    print('%s: test %s, goal %s: expected %s, recorded %s, now %s' % (
        v['what'], v['test'], v['goal'], v['expected'], v['actual'], a))
    w = v['expected']
    if isinstance(w, str) and w.startswith('not '):
        return int(a == w[4:])
    if isinstance(w, str) and w.startswith('one of '):
        return int(a not in w[7:].split(', '))
    return int(a != w)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    try:
        rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else
                  os.environ.get('VERIF_TIER', 'quick'))
    except Exception:
        traceback.print_exc()
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        path = os.path.join('evidence', 'replay', sys.argv[1] + '.json')
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump({'property': sys.argv[1], 'undischarged': [
                {'obligation': 'the checker runs',
                 'detail': traceback.format_exc()}],
                'failing_input': None}, f)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (
            sys.argv[1], path))
        rc = 1
    sys.exit(rc)
