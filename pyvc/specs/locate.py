"""Contracts of point location."""
import z3

from ..engine import Engine, Fold, ISeq, SInt, SSeq
from ..model import *  # noqa

NAMES = ('EXTERIOR', 'BOUNDARY', 'INTERIOR')


def _edge(vs, p):
    return vs[SInt(z3.simplify(p - 1))], vs.at(p)


def _finish(c, kind, value, label):
    if kind == 'raise':
        c.prove(False, label + ': no exception', repr(value))
    if not isinstance(value, Location):
        c.prove(False, label + ': returns a location', repr(value))
    c.cover('%s returns %s' % (label, value.name))
    return value


def on(c, q, a, b):
    """Opaque: the point belongs to the closed segment."""
    a, b, q = ((X(t), Y(t)) for t in (a, b, q))
    k = sorted((a, b), key=lambda t: (t[0].get_id(), t[1].get_id()))
    return c.predicate('on', q, *k)


def off(c, q, a, b):
    """What the loop needs of a point outside of a segment."""
    c.assume(z3.Implies(z3.And(between(Y(q), Y(a), Y(b)), Y(a) != Y(b)),
                        det(a, b, q) != 0))


def use_segment_contract(M, reveal=None):
    """segment.locate_point by its contract (group locate.segment)."""
    def located(segment, point, context):
        c = E.ctl()
        if c.branch(on(c, point, segment.start, segment.end)):
            return Location.BOUNDARY
        if reveal:
            reveal(c, point, segment.start, segment.end)
        return Location.EXTERIOR
    M.stub('segment', 'locate_point', located)


def region(M):
    """The real edges loop of region.locate_point against even-odd."""
    e = Engine('region.locate_point',
               functions=['region.locate_point', 'segment.locate_point'])
    label = 'region.locate_point'
    use_segment_contract(M, off)

    def harness(c):
        q = sym_point(c, 'q')
        r = sym_contour(c, 'v')
        vs = r.vertices

        def step(state, p):
            hit, par = state
            a, b = _edge(vs, p)
            if c.branch(on(c, q, a, b)):
                return True, par
            off(c, q, a, b)
            return hit, par ^ c.branch(ray_crosses(q, a, b))
        c.folds[vs.n.get_id()] = Fold((False, False), step)
        v = _finish(c, *c.outcome(M.region.locate_point, r, q, VContext()),
                    label)
        run = c.fold_run.get(vs.n.get_id(), (False, False))
        done = c.fold_done.get(vs.n.get_id())
        if v is Location.BOUNDARY:
            c.prove(run[0] or bool(done and done[0]),
                    label + ': BOUNDARY only on an edge')
        else:
            c.prove(done is not None and not done[0],
                    label + ': %s only if on no edge' % v.name)
            c.prove((v is Location.INTERIOR) == done[1],
                    label + ': %s by the even-odd rule' % v.name)
    return e.explore(harness)


def _exists(M, module, fn, make_goal, label, functions):
    e = Engine(label, functions=functions)
    use_segment_contract(M)

    def harness(c):
        q = sym_point(c, 'q')
        goal, n, step = make_goal(c, q)
        c.folds[n.get_id()] = Fold(False, step)
        v = _finish(c, *c.outcome(fn, goal, q, VContext()), label)
        known = c.fold_run.get(n.get_id()) or c.fold_done.get(n.get_id())
        if v is Location.BOUNDARY:
            c.prove(bool(known), label + ': BOUNDARY only on a segment')
        else:
            c.prove(v is Location.EXTERIOR, label + ': no interior')
            c.prove(c.fold_done.get(n.get_id()) is False,
                    label + ': EXTERIOR only if on no segment')
    return e.explore(harness)


def contour(M):
    def goal(c, q):
        r = sym_contour(c, 'v')
        vs = r.vertices
        return r, vs.n, lambda s, p: s or c.branch(
            on(c, q, *_edge(vs, p)))
    return _exists(M, 'contour', M.contour.locate_point, goal,
                   'contour.locate_point', ['contour.locate_point',
                                            'segment.locate_point'])


def multisegment(M):
    def goal(c, q):
        n = c.glob('n_s', z3.IntSort())
        c.assume(n >= 2)
        ss = SSeq('s', n, lambda p: G.Segment(fresh_point(c, 'a'),
                                              fresh_point(c, 'b')),
                  windowed=False)
        return (G.Multisegment(ss), n, lambda s, p: s or c.branch(
            on(c, q, ss.at(p).start, ss.at(p).end)))
    return _exists(M, 'multisegment', M.multisegment.locate_point, goal,
                   'multisegment.locate_point', ['multisegment.locate_point',
                                                 'segment.locate_point'])


def segment(M):
    e = Engine('segment.locate_point',
               functions=['segment.locate_point',
                          'ground.segment_contains_point'])
    label = 'segment.locate_point'

    def harness(c):
        q, a, b = (sym_point(c, n) for n in 'qab')
        v = _finish(c, *c.outcome(M.segment.locate_point, G.Segment(a, b), q,
                                  VContext()), label)
        on = on_closed(q, a, b)
        c.prove(on if v is Location.BOUNDARY else z3.Not(on)
                if v is Location.EXTERIOR else False,
                label + ': BOUNDARY exactly on the closed segment')
    return e.explore(harness)


class Located:
    """A part whose location of the point is given by its own contract."""
    __slots__ = ('loc', 'kind')

    def __init__(self, loc, kind):
        self.loc, self.kind = loc, kind

    def __pyvc_describe__(self, env):
        return ('part', self.kind, self.loc.name)


def _part(c, kind):
    return Located(c.choose(list(Location)), kind)


def _parts(c, name, kind, min_n=0):
    n = c.glob('n_' + name, z3.IntSort())
    c.assume(n >= min_n)
    return SSeq(name, n, lambda p: _part(c, kind), windowed=False)


def _union_step(c, parts):
    """Interiors of parts are disjoint, boundaries meet in points only:
    a point inside of one part is outside of all the others."""
    def step(s, p):
        x = parts.at(p).loc
        if (x is Location.INTERIOR and s != 'EXTERIOR'
                or x is not Location.EXTERIOR and s == 'INTERIOR'):
            raise Stop
        return s if x is Location.EXTERIOR else x.name
    return Fold('EXTERIOR', step)


def _judge(c, v, n, want, label):
    """The result follows from what is known of the parts."""
    run, done = c.fold_run.get(n.get_id()), c.fold_done.get(n.get_id())
    known = done if done is not None else run
    if v is not Location.EXTERIOR:
        c.prove(known == v.name, label + ': %s by some part' % v.name)
    else:
        c.prove(done == 'EXTERIOR',
                label + ': EXTERIOR only if outside of all parts')


def multiregion(M):
    e = Engine('multiregion.locate_point',
               functions=['multiregion.locate_point'])
    label = 'multiregion.locate_point'

    def located(part, point, context):
        c = E.ctl()
        c.prove(point is c.note['q'], label + ': passes the point on')
        return part.loc
    M.stub('region', 'locate_point', located)

    def harness(c):
        q = c.note['q'] = sym_point(c, 'q')
        parts = _parts(c, 'parts', 'region')
        c.folds[parts.n.get_id()] = _union_step(c, parts)
        v = _finish(c, *c.outcome(M.multiregion.locate_point, parts, q,
                                  VContext()), label)
        _judge(c, v, parts.n, None, label)
    return e.explore(harness)


def multipolygon(M):
    e = Engine('multipolygon.locate_point',
               functions=['multipolygon.locate_point'])
    label = 'multipolygon.locate_point'

    def located(part, point, context):
        c = E.ctl()
        c.prove(point is c.note['q'], label + ': passes the point on')
        return part.loc
    M.stub('polygon', 'locate_point', located)

    def harness(c):
        q = c.note['q'] = sym_point(c, 'q')
        parts = _parts(c, 'parts', 'polygon', 1)
        c.folds[parts.n.get_id()] = _union_step(c, parts)
        v = _finish(c, *c.outcome(M.multipolygon.locate_point,
                                  G.Multipolygon(parts), q, VContext()),
                    label)
        _judge(c, v, parts.n, None, label)
    return e.explore(harness)


def polygon(M):
    e = Engine('polygon.locate_point', functions=['polygon.locate_point'])
    label = 'polygon.locate_point'

    def located(part, point, context):
        c = E.ctl()
        c.prove(point is c.note['q'], label + ': passes the point on')
        return part.loc
    M.stub('region', 'locate_point', located)

    def harness(c):
        q = c.note['q'] = sym_point(c, 'q')
        border = _part(c, 'border')
        holes = _parts(c, 'holes', 'hole')

        def step(s, p):
            s = _union_step(c, holes).step(s, p)
            # holes are subsets of the border's region
            if s == 'INTERIOR' and border.loc is not Location.INTERIOR:
                raise Stop
            if s == 'BOUNDARY' and border.loc is Location.EXTERIOR:
                raise Stop
            return s
        n = holes.n
        c.folds[n.get_id()] = Fold('EXTERIOR', step)
        v = _finish(c, *c.outcome(M.polygon.locate_point,
                                  G.Polygon(border, holes), q, VContext()),
                    label)
        run, done = c.fold_run.get(n.get_id()), c.fold_done.get(n.get_id())
        known = done if done is not None else run
        b = border.loc
        if b is not Location.INTERIOR:
            c.prove(v is b, label + ': border decides outside of its interior')
        elif known in ('INTERIOR', 'BOUNDARY'):
            c.prove(v is (Location.EXTERIOR if known == 'INTERIOR'
                          else Location.BOUNDARY),
                    label + ': a hole decides inside of the border')
        else:
            c.prove(done == 'EXTERIOR' and v is Location.INTERIOR,
                    label + ': interior only if outside of all holes')
    return e.explore(harness)


def off_lemma(M):
    """What the loop is told of a point off a segment (see off)."""
    e = Engine('locate.region.off', functions=[])

    def harness(c):
        q, a, b = (sym_point(c, k) for k in 'qab')
        c.assume(z3.Not(on_closed(q, a, b)))
        c.assume(z3.And(between(Y(q), Y(a), Y(b)), Y(a) != Y(b)))
        c.prove(det(a, b, q) != 0, 'a point level with an edge and off it '
                'is not on its line')
    return e.explore(harness)


GROUPS = {'locate.segment': segment, 'locate.multisegment': multisegment,
          'locate.contour': contour, 'locate.region': region,
          'locate.region.off': off_lemma,
          'locate.multiregion': multiregion, 'locate.polygon': polygon,
          'locate.multipolygon': multipolygon}
