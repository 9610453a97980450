"""Bounded search for failing inputs: the real code against the reference.

Labelled bounded wherever it is reported: it looks for concrete failing
inputs, it never counts as a proof.
"""
import random
import time
from fractions import Fraction

from . import cells, gen, oracle as O, rects

LINEAR_POINT = ('segment', 'multisegment', 'contour')
AREAL_POINT = ('region', 'multiregion', 'polygon', 'multipolygon')
COMPLEMENT = {'DISJOINT': 'DISJOINT', 'TOUCH': 'TOUCH', 'CROSS': 'CROSS',
              'OVERLAP': 'OVERLAP', 'COVER': 'WITHIN', 'WITHIN': 'COVER',
              'ENCLOSES': 'ENCLOSED', 'ENCLOSED': 'ENCLOSES',
              'COMPOSITE': 'COMPONENT', 'COMPONENT': 'COMPOSITE',
              'EQUAL': 'EQUAL'}
LOCATION = {'E': 'EXTERIOR', 'B': 'BOUNDARY', 'I': 'INTERIOR'}


# ---------------------------------------------------------- maps of geometry

def mapped(g, f):
    kind, d = g
    if kind == 'point':
        return kind, f(d)
    if kind == 'segment':
        return kind, (f(d[0]), f(d[1]))
    if kind == 'multisegment':
        return kind, [(f(a), f(b)) for a, b in d]
    if kind in ('contour', 'region'):
        return kind, [f(v) for v in d]
    if kind == 'multiregion':
        return kind, [[f(v) for v in x] for x in d]
    if kind == 'polygon':
        return kind, ([f(v) for v in d[0]], [[f(v) for v in h]
                                             for h in d[1]])
    return kind, [mapped(('polygon', p), f)[1] for p in d]


def affine(r):
    c = r.random()
    if c < .4:
        return (1, 0, 0, 1, 0, 0)
    k = r.random()
    if k < .35:
        m = r.choice(((0, 1, 1, 0), (-1, 0, 0, 1), (0, -1, 1, 0),
                      (-1, 0, 0, -1), (1, 0, 0, -1), (0, 1, -1, 0)))
    elif k < .6:
        m = r.choice(((1, 1, 0, 1), (1, 0, 1, 1), (1, -2, 0, 1),
                      (2, 1, 1, 1), (1, 2, -1, 3), (-3, 1, 1, 2),
                      (3, 0, 0, 1), (1, 0, 0, 7)))
    elif k < .8:
        s = r.choice((Fraction(1, 3), Fraction(7, 5), Fraction(1, 10 ** 9)))
        m = (s, 0, 0, s)
    else:
        m = r.choice(((10 ** 6, 0, 0, 10 ** 6), (1, 0, 0, 10 ** 6 + 3),
                      (10 ** 9, 1, 1, 10 ** 9), (1, 0, 0, 1)))
    t = r.choice(((0, 0), (-2, -3), (10 ** 6, -10 ** 6),
                  (Fraction(1, 2), Fraction(-5, 7)),
                  (r.randrange(-9, 9), r.randrange(-9, 9))))
    return m + t


def apply(m):
    a, b, c, d, x, y = m

    def f(p):
        return (a * p[0] + b * p[1] + x, c * p[0] + d * p[1] + y)
    return f


def rotated(r, ring):
    k = r.randrange(len(ring))
    ring = list(ring[k:]) + list(ring[:k])
    return ring[::-1] if r.random() < .5 else ring


def rewritten(r, g):
    """Another way to write down the same geometry."""
    kind, d = g
    if kind == 'segment':
        return kind, (d if r.random() < .5 else (d[1], d[0]))
    if kind == 'multisegment':
        d = [s if r.random() < .5 else (s[1], s[0]) for s in d]
        r.shuffle(d)
        return kind, d
    if kind in ('contour', 'region'):
        return kind, rotated(r, d)
    if kind == 'multiregion':
        d = [rotated(r, x) for x in d]
        r.shuffle(d)
        return kind, d
    if kind == 'polygon':
        hs = [rotated(r, h) for h in d[1]]
        r.shuffle(hs)
        return kind, (rotated(r, d[0]), hs)
    d = [rewritten(r, ('polygon', p))[1] for p in d]
    r.shuffle(d)
    return kind, d


def scattered(r, g, n):
    """Add far or near parts to a geometry of several parts."""
    kind, d = g
    off = (r.choice((-1, 0, 1)) * r.randrange(n, 3 * n),
           r.choice((-1, 0, 1)) * r.randrange(n, 3 * n))

    def f(p):
        return p[0] + off[0], p[1] + off[1]
    extra = {'multisegment': lambda: gen.segment(r, n),
             'multiregion': lambda: gen.ring(r, n, 4),
             'multipolygon': lambda: gen.polygon(r, n, r.choice((0, 1)), 5)
             }.get(kind)
    if extra is None:
        return g
    e = extra()
    single = {'multisegment': 'segment', 'multiregion': 'region',
              'multipolygon': 'polygon'}[kind]
    e = mapped((single, e), f)[1]
    d = list(d)
    d.insert(r.randrange(len(d) + 1), e)
    return (kind, d) if gen.valid((kind, d)) else g


def some_pair(r, tk, gk):
    c = r.random()
    linear = gk in LINEAR_POINT or tk in LINEAR_POINT
    if c < .15:
        p = cells.pair(r, tk, gk, gen.valid)
        if p is not None:
            return p
    elif c < (.45 if linear else .75):
        p = rects.pair(r, tk, gk, gen.valid, mapped)
        if p is not None:
            return p
    elif c < (.65 if gk in LINEAR_POINT else .55) and linear:
        p = rects.collinear(r, tk, gk, gen.valid)
        if p is not None:
            return p
    c = r.random()
    if c < .06:
        # a geometry and itself (or its copy in another kind)
        n = r.choice((3, 4, 5))
        g = gen.geometry(r, gk, n)
        if tk == gk:
            return rewritten(r, g), g
    n = r.choice((3, 3, 4, 4, 5, 6, 9))
    t, g = gen.pair(r, tk, gk, n)
    if r.random() < .2:
        for _ in range(r.choice((1, 1, 2, 4))):
            if r.random() < .5:
                t = scattered(r, t, n)
            else:
                g = scattered(r, g, n)
    if r.random() < .15:
        # an exact shift of one of them
        o = r.randrange(-n, n + 1), r.randrange(-n, n + 1)
        t = mapped(t, lambda p: (p[0] + o[0], p[1] + o[1]))
    return t, g


def some_point(r, g):
    es = O.edges(g)
    c = r.random()
    if not es or c < .3:
        return r.randrange(-1, 7), r.randrange(-1, 7)
    (a, b), (d, e) = r.choice(es), r.choice(es)
    if c < .4:
        return a
    if c < .6:
        t = Fraction(r.randrange(0, 9), 8)
        return a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])
    if c < .75:
        return a[0], d[1]
    if c < .9:
        return Fraction(a[0] + d[0], 2), Fraction(a[1] + d[1], 2)
    return (Fraction(a[0] * 2 + d[0], 3), a[1])


def got(f):
    try:
        return f()
    except RecursionError:
        raise
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:200])


def bad(what, expected, actual, test=None, goal=None, **kw):
    d = {'what': what, 'expected': expected, 'actual': actual,
         'test': test, 'goal': goal}
    d.update(kw)
    return d


# --------------------------------------------------------------- test modes
# Every mode: (r, R, spec) -> (class of the case or None, violation or None)

def mode_locate(r, R, spec):
    kind = r.choice(spec['kinds'])
    n = r.choice((3, 4, 5, 6))
    c = r.random()
    if kind == 'multiregion' and c < .02:
        g = (kind, [])
    elif c < .5:
        p = (cells.pair(r, kind, kind, gen.valid) if c < .15 else
             rects.pair(r, kind, kind, gen.valid, mapped))
        g = p[0] if p else gen.geometry(r, kind, n)
    else:
        g = gen.geometry(r, kind, n)
        if r.random() < .2:
            g = scattered(r, g, n)
    p = some_point(r, g)
    want = LOCATION[O.locate(g, p)]
    f = apply(affine(r))
    g2, p2 = mapped(g, f), f(p)
    a = got(lambda: R.locate(p2, g2))
    return kind + ':' + want, (None if a == want else bad(
        'point_in_' + kind, want, a, ('point', p2), g2))


def mode_relate(r, R, spec):
    tk, gk = r.choice(spec['pairs'])
    t, g = some_pair(r, tk, gk)
    want = O.relate(t, g)
    f = apply(affine(r))
    t2, g2 = mapped(t, f), mapped(g, f)
    a = got(lambda: R.relate(t2, g2))
    return '%s,%s:%s' % (tk, gk, want), (None if a == want else bad(
        '%s_in_%s' % (tk, gk), want, a, t2, g2))


def mode_converse(r, R, spec):
    tk, gk = r.choice(spec['pairs'])
    t, g = some_pair(r, tk, gk)
    f = apply(affine(r))
    t2, g2 = mapped(t, f), mapped(g, f)
    a = got(lambda: R.relate(t2, g2))
    b = got(lambda: R.relate(g2, t2))
    want = COMPLEMENT.get(a)
    v = None
    if want is None or b != want:
        v = bad('converse of %s_in_%s' % (tk, gk), want, b, g2, t2,
                direct=a)
    return '%s,%s:%s' % (tk, gk, a), v


def mode_rewrite(r, R, spec):
    tk, gk = r.choice(spec['pairs'])
    if tk == 'point':
        g = gen.geometry(r, gk, r.choice((3, 4, 5)))
        p = some_point(r, g)
        g2 = rewritten(r, g)
        a, b = got(lambda: R.locate(p, g)), got(lambda: R.locate(p, g2))
        return 'point,%s:%s' % (gk, a), (
            None if a == b and a in LOCATION.values() else bad(
                'point_in_%s after rewriting' % gk, a, b, ('point', p), g2,
                original=g))
    t, g = some_pair(r, tk, gk)
    t2, g2 = rewritten(r, t), rewritten(r, g)
    if r.random() < .3:
        t2 = t
    elif r.random() < .3:
        g2 = g
    f = apply(affine(r))
    a = got(lambda: R.relate(t, g))
    b = got(lambda: R.relate(mapped(t2, f), mapped(g2, f)))
    return '%s,%s:%s' % (tk, gk, a), (
        None if a == b and a in COMPLEMENT else bad(
            '%s_in_%s after rewriting' % (tk, gk), a, b, mapped(t2, f),
            mapped(g2, f), original=[t, g]))


def mode_disjoint(r, R, spec):
    """DISJOINT exactly when there is no common point."""
    tk, gk = r.choice(spec['pairs'])
    t, g = some_pair(r, tk, gk)
    c = r.random()
    if c < .5:
        es, fs = O.edges(t), O.edges(g)
        if es and fs:
            # make the boxes touch or nearly touch
            xs = [p[0] for e in es for p in e]
            ys = [p[1] for e in es for p in e]
            us = [p[0] for e in fs for p in e]
            vs = [p[1] for e in fs for p in e]
            dx = r.choice((max(us) - min(xs), min(us) - max(xs),
                           min(us) - min(xs), 0))
            dy = r.choice((max(vs) - min(ys), min(vs) - max(ys),
                           min(vs) - min(ys), 0))
            dx += r.choice((0, 0, 0, 1, -1))
            dy += r.choice((0, 0, 0, 1, -1))
            t = mapped(t, lambda p: (p[0] + dx, p[1] + dy))
    want = O.relate(t, g) == 'DISJOINT'
    f = apply(affine(r))
    t2, g2 = mapped(t, f), mapped(g, f)
    a = got(lambda: R.relate(t2, g2))
    return '%s,%s:%s' % (tk, gk, want), (
        None if a in COMPLEMENT and (a == 'DISJOINT') == want else bad(
            '%s_in_%s' % (tk, gk), 'DISJOINT' if want else 'not DISJOINT',
            a, t2, g2))


def mode_equal(r, R, spec):
    """EQUAL exactly for the same set of points (a geometry and itself)."""
    tk, gk = r.choice(spec['pairs'])
    if r.random() < .5 and tk == gk:
        g = gen.geometry(r, gk, r.choice((3, 4, 5, 6)))
        if r.random() < .3:
            p = cells.pair(r, tk, gk, gen.valid)
            g = p[0] if p else g
        t = rewritten(r, g)
    else:
        t, g = some_pair(r, tk, gk)
    want = O.relate(t, g) == 'EQUAL'
    f = apply(affine(r))
    t2, g2 = mapped(t, f), mapped(g, f)
    a = got(lambda: R.relate(t2, g2))
    return '%s,%s:%s' % (tk, gk, want), (
        None if a in COMPLEMENT and (a == 'EQUAL') == want else bad(
            '%s_in_%s' % (tk, gk), 'EQUAL' if want else 'not EQUAL', a,
            t2, g2))


WRAP = {'region': [('multiregion', lambda d: [d]),
                   ('polygon', lambda d: (d, [])),
                   ('multipolygon', lambda d: [(d, [])])],
        'multiregion': [('multipolygon', lambda d: [(x, []) for x in d])],
        'polygon': [('multipolygon', lambda d: [d])],
        'contour': [('multisegment', lambda d: O.ring_edges(d))]}


def mode_wrap(r, R, spec):
    """The same set of points written as another kind: the same answer."""
    tk, gk = r.choice(spec['pairs'])
    if tk == 'point':
        g = gen.geometry(r, gk, r.choice((3, 4, 5)))
        k2, w = r.choice(WRAP[gk])
        p = some_point(r, g)
        g2 = (k2, w(g[1]))
        a, b = got(lambda: R.locate(p, g)), got(lambda: R.locate(p, g2))
        return 'point,%s,%s:%s' % (gk, k2, a), (
            None if a == b and a in LOCATION.values() else bad(
                'point_in_%s as %s' % (gk, k2), a, b, ('point', p), g2))
    t, g = some_pair(r, tk, gk)
    t2, g2 = t, g
    if r.random() < .6 and gk in WRAP:
        k, w = r.choice(WRAP[gk])
        g2 = (k, w(g[1]))
    elif tk in WRAP:
        k, w = r.choice(WRAP[tk])
        t2 = (k, w(t[1]))
    elif gk in WRAP:
        k, w = r.choice(WRAP[gk])
        g2 = (k, w(g[1]))
    name = '%s_in_%s' % (t2[0], g2[0])
    if not hasattr(R.planar, name):
        return None, None
    a, b = got(lambda: R.relate(t, g)), got(lambda: R.relate(t2, g2))
    return '%s,%s as %s,%s:%s' % (tk, gk, t2[0], g2[0], a), (
        None if a == b and a in COMPLEMENT else bad(
            name + ' for the points of %s, %s' % (tk, gk), a, b, t2, g2))


def mode_points(r, R, spec):
    """What a relation claims agrees with the locations of points."""
    tk, gk = r.choice(spec['pairs'])
    t, g = some_pair(r, tk, gk)
    a = got(lambda: R.relate(t, g))
    if a not in COMPLEMENT:
        return None, bad('%s_in_%s' % (tk, gk), 'a relation', a, t, g)
    es = O.edges(t)
    ps = []
    for _ in range(4):
        p, q = r.choice(es)
        s = Fraction(r.randrange(0, 5), 4)
        ps.append((p[0] + s * (q[0] - p[0]), p[1] + s * (q[1] - p[1])))
    if O.edges(g):
        ps.append(some_point(r, g))
        ps.append(r.choice(r.choice(O.edges(g))))
    linear = gk in LINEAR_POINT
    for p in ps:
        x, y = got(lambda: R.locate(p, t)), got(lambda: R.locate(p, g))
        wrong = False
        inn, inn2 = x != 'EXTERIOR', y != 'EXTERIOR'
        if a == 'DISJOINT':
            wrong = inn and inn2
        elif a == 'TOUCH' and not (linear and tk in LINEAR_POINT):
            wrong = (x == 'INTERIOR' and inn2 or y == 'INTERIOR' and inn)
        elif a in ('COMPONENT', 'EQUAL', 'ENCLOSED', 'WITHIN'):
            wrong = inn and not inn2
            if a == 'WITHIN':
                wrong = wrong or inn and y != 'INTERIOR'
            if a == 'COMPONENT' and tk in LINEAR_POINT:
                wrong = wrong or inn and y != 'BOUNDARY'
        if a in ('COMPOSITE', 'EQUAL', 'ENCLOSES', 'COVER'):
            wrong = wrong or inn2 and not inn
            if a == 'COVER':
                wrong = wrong or inn2 and x != 'INTERIOR'
        if wrong or x not in LOCATION.values() or y not in LOCATION.values():
            return a, bad('%s_in_%s against point locations' % (tk, gk),
                          'points consistent with ' + a,
                          'the point is %s of test, %s of goal' % (x, y),
                          t, g, point=p)
    return '%s,%s:%s' % (tk, gk, a), None


ADMISSIBLE = {
    'll': {'DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'COMPOSITE', 'EQUAL',
           'COMPONENT'},
    'la': {'DISJOINT', 'TOUCH', 'CROSS', 'COMPONENT', 'ENCLOSED', 'WITHIN'},
    'aa': {'DISJOINT', 'TOUCH', 'OVERLAP', 'COVER', 'ENCLOSES', 'COMPOSITE',
           'EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN'}}


def admissible(tk, gk):
    s = set(ADMISSIBLE[('l' if tk in LINEAR_POINT else 'a')
                       + ('l' if gk in LINEAR_POINT else 'a')])
    if tk == 'segment' and gk in ('contour',):
        s -= {'COMPOSITE', 'EQUAL'}
    return s


def mode_admissible(r, R, spec):
    tk, gk = r.choice(spec['pairs'])
    if tk == 'point':
        g = gen.geometry(r, gk, r.choice((3, 4, 5)))
        p = some_point(r, g)
        s = {'EXTERIOR', 'BOUNDARY', 'INTERIOR'}
        if gk == 'contour' or gk == 'segment' or gk == 'multisegment':
            s -= {'INTERIOR'}
        a = got(lambda: R.locate(p, g))
        return 'point,%s:%s' % (gk, a), (
            None if a in s else bad('point_in_' + gk, 'one of ' + ', '.join(
                sorted(s)), a, ('point', p), g))
    t, g = some_pair(r, tk, gk)
    if r.random() < .3:
        n = r.choice((8, 12, 20))
        t, g = gen.pair(r, tk, gk, n)
    f = apply(affine(r))
    t, g = mapped(t, f), mapped(g, f)
    a = got(lambda: R.relate(t, g))
    s = admissible(tk, gk)
    return '%s,%s:%s' % (tk, gk, a), (
        None if a in s else bad('%s_in_%s' % (tk, gk),
                                'one of ' + ', '.join(sorted(s)), a, t, g))


def snapshot(g):
    return repr(g)


def mode_frame(r, R, spec):
    """Arguments are left as they were, the result is repeatable."""
    tk, gk = r.choice(spec['pairs'])
    if tk == 'point':
        g = gen.geometry(r, gk, r.choice((3, 4, 5)))
        t = ('point', some_point(r, g))
    else:
        t, g = some_pair(r, tk, gk)
    a = R.build(t)
    b = R.build(g)
    f = getattr(R.planar, '%s_in_%s' % (tk, gk))
    x, y = R.dump(t[0], a), R.dump(g[0], b)
    v1 = got(lambda: f(a, b).name)
    if (x, y) != (R.dump(t[0], a), R.dump(g[0], b)):
        return None, bad('%s_in_%s changes its arguments' % (tk, gk),
                         [x, y], [R.dump(t[0], a), R.dump(g[0], b)], t, g)
    v2 = got(lambda: f(a, b).name)
    if v1 != v2:
        return None, bad('%s_in_%s repeated' % (tk, gk), v1, v2, t, g)
    c = R.own_context()
    v3 = got(lambda: R.with_context(c, f, a, b).name)
    if v1 != v3:
        return None, bad('%s_in_%s with a context of its own' % (tk, gk),
                         v1, v3, t, g)
    return '%s,%s:%s' % (tk, gk, v1), None


MODES = {k[5:]: v for k, v in globals().items() if k.startswith('mode_')}


def replayed(v, R):
    """Runs a recorded violation again, tells what comes out."""
    t, g = v['test'], v['goal']
    if t and t[0] == 'point':
        return got(lambda: R.locate(t[1], g))
    return got(lambda: R.relate(t, g))


# ------------------------------------------------------------------ shrinking

def parts(g):
    """Smaller geometries of the same kind."""
    kind, d = g
    if kind in ('multisegment', 'multiregion', 'multipolygon'):
        for i in range(len(d)):
            yield kind, d[:i] + d[i + 1:]
    if kind in ('contour', 'region'):
        for i in range(len(d)):
            yield kind, d[:i] + d[i + 1:]
    if kind == 'multiregion':
        for i, x in enumerate(d):
            for y in parts(('region', x)):
                yield kind, d[:i] + [y[1]] + d[i + 1:]
    if kind == 'polygon':
        b, hs = d
        for i in range(len(hs)):
            yield kind, (b, hs[:i] + hs[i + 1:])
        for y in parts(('region', b)):
            yield kind, (y[1], hs)
        for i, h in enumerate(hs):
            for y in parts(('region', h)):
                yield kind, (b, hs[:i] + [y[1]] + hs[i + 1:])
    if kind == 'multipolygon':
        for i, x in enumerate(d):
            for y in parts(('polygon', x)):
                yield kind, d[:i] + [y[1]] + d[i + 1:]


def shrink(v, R, mode, seconds=10):
    """Smaller input with the same kind of a wrong answer (relate only)."""
    if mode != 'relate' or not v.get('test'):
        return v
    end = time.time() + seconds
    t, g = v['test'], v['goal']
    going = True
    while going and time.time() < end:
        going = False
        for nt, ng in ([(x, g) for x in parts(t)]
                       + [(t, x) for x in parts(g)]):
            try:
                if not (nt[1] and ng[1] and gen.valid(nt)
                        and gen.valid(ng)):
                    continue
                w = O.relate(nt, ng)
                a = got(lambda: R.relate(nt, ng))
            except Exception:
                continue
            if a != w:
                t, g = nt, ng
                v = dict(v, expected=w, actual=a, test=t, goal=g)
                going = True
                break
            if time.time() > end:
                break
    return v


def run(seed, seconds, modes):
    """modes: list of (mode name, spec, weight).  Runs until a violation."""
    from . import real as R
    r = random.Random(seed)
    n, seen, hist = 0, set(), {}
    end = time.time() + seconds
    names = [m for m in modes for _ in range(m[2])]
    samples = []
    while time.time() < end:
        name, spec, _ = r.choice(names)
        k, v = MODES[name](r, R, spec)
        n += 1
        if k is not None:
            hist[k] = hist.get(k, 0) + 1
        if v is not None:
            v = shrink(v, R, name)
            v['mode'], v['seed'] = name, seed
            return {'n': n, 'hist': hist, 'violation': v}
    return {'n': n, 'hist': hist, 'violation': None}
