"""Bridge to the real code in /repo (run under an interpreter that sees it)."""
from ground.base import get_context
import orient.planar as planar

ctx = get_context()
P, S, C = ctx.point_cls, ctx.segment_cls, ctx.contour_cls
MS, PG, MP = ctx.multisegment_cls, ctx.polygon_cls, ctx.multipolygon_cls

PAIRS = [('segment', 'segment'), ('segment', 'multisegment'),
         ('multisegment', 'multisegment'), ('segment', 'contour'),
         ('multisegment', 'contour'), ('contour', 'contour'),
         ('segment', 'region'), ('multisegment', 'region'),
         ('contour', 'region'), ('region', 'region'),
         ('segment', 'multiregion'), ('multisegment', 'multiregion'),
         ('contour', 'multiregion'), ('region', 'multiregion'),
         ('multiregion', 'multiregion'),
         ('segment', 'polygon'), ('multisegment', 'polygon'),
         ('contour', 'polygon'), ('region', 'polygon'),
         ('multiregion', 'polygon'), ('polygon', 'polygon'),
         ('segment', 'multipolygon'), ('multisegment', 'multipolygon'),
         ('contour', 'multipolygon'), ('region', 'multipolygon'),
         ('multiregion', 'multipolygon'), ('polygon', 'multipolygon'),
         ('multipolygon', 'multipolygon')]


def point(p):
    return P(*p)


def ring(vs):
    return C([P(*v) for v in vs])


def build(g):
    kind, d = g
    if kind == 'point':
        return P(*d)
    if kind == 'segment':
        return S(P(*d[0]), P(*d[1]))
    if kind == 'multisegment':
        return MS([S(P(*a), P(*b)) for a, b in d])
    if kind in ('contour', 'region'):
        return ring(d)
    if kind == 'multiregion':
        return [ring(r) for r in d]
    if kind == 'polygon':
        return PG(ring(d[0]), [ring(h) for h in d[1]])
    if kind == 'multipolygon':
        return MP([build(('polygon', p)) for p in d])
    raise ValueError(kind)


def relate(test, goal):
    f = getattr(planar, '%s_in_%s' % (test[0], goal[0]))
    return f(build(test), build(goal)).name


def locate(p, goal):
    f = getattr(planar, 'point_in_%s' % goal[0])
    return f(P(*p), build(goal)).name


def dump(kind, x):
    """The whole state of a geometry as the caller sees it."""
    if kind == 'point':
        return [x.x, x.y]
    if kind == 'segment':
        return [dump('point', x.start), dump('point', x.end)]
    if kind == 'multisegment':
        return [dump('segment', s) for s in x.segments]
    if kind in ('contour', 'region'):
        return [dump('point', v) for v in x.vertices]
    if kind == 'multiregion':
        return [dump('region', v) for v in x]
    if kind == 'polygon':
        return [dump('region', x.border), [dump('region', h)
                                           for h in x.holes]]
    return [dump('polygon', p) for p in x.polygons]


class Poison:
    def __getattr__(self, name):
        raise AssertionError('the default context is used')


def own_context():
    from ground.base import Context
    return Context()


def with_context(c, f, a, b):
    """Calls with an explicit context while the default one is unusable."""
    import sys
    import ground.base
    true = ground.base.get_context
    saved = [(m, k) for name, m in list(sys.modules.items())
             if m is not None and (name.partition('.')[0] in ('orient',
                                                              'ground'))
             for k, x in list(vars(m).items()) if x is true]
    try:
        for m, k in saved:
            setattr(m, k, Poison)
        return f(a, b, context=c)
    finally:
        for m, k in saved:
            setattr(m, k, true)
