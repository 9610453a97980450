"""Two segments: the relation the context reports against the points."""
import z3

from ..engine import Engine
from ..model import *  # noqa
from .queue import le

R = Relation


def ends(c):
    a, b, d, e = (sym_point(c, n) for n in 'abde')
    c.assume(z3.Not(same(a, b)))
    c.assume(z3.Not(same(d, e)))
    return a, b, d, e


def ordered(c, a, b):
    return (a, b) if c.branch(less(a, b)) else (b, a)


def expected(c, r, p, q, s, t):
    """What each relation says of test [p, q] and goal [s, t], p<q, s<t."""
    dp, dq = det(s, t, p), det(s, t, q)
    ds, dt = det(p, q, s), det(p, q, t)
    line = z3.And(dp == 0, dq == 0)

    def inner(x, u, v):
        return z3.And(less(u, x), less(x, v))
    if r is R.EQUAL:
        return z3.And(same(p, s), same(q, t))
    if r is R.COMPONENT:
        return z3.And(line, le(s, p), le(q, t),
                      z3.Not(z3.And(same(p, s), same(q, t))))
    if r is R.COMPOSITE:
        return z3.And(line, le(p, s), le(t, q),
                      z3.Not(z3.And(same(p, s), same(q, t))))
    if r is R.OVERLAP:
        return z3.And(line, z3.Or(
            z3.And(less(p, s), less(s, q), less(q, t)),
            z3.And(less(s, p), less(p, t), less(t, q))))
    if r is R.CROSS:
        return z3.And(dp * dq < 0, ds * dt < 0)
    at_end = z3.Or(on_closed(p, s, t), on_closed(q, s, t),
                   on_closed(s, p, q), on_closed(t, p, q))
    if r is R.TOUCH:
        return z3.And(at_end, z3.Or(z3.Not(line), same(p, t), same(q, s)))
    return z3.And(z3.Not(at_end), z3.Not(z3.And(dp * dq < 0, ds * dt < 0)))


ADMISSIBLE = (R.DISJOINT, R.TOUCH, R.CROSS, R.OVERLAP, R.COMPONENT,
              R.COMPOSITE, R.EQUAL)


def relate(M):
    """segment.relate_segment: the relation by the ends."""
    e = Engine('segment.relate_segment', timeout=60000, functions=[
        'segment.relate_segment'])
    label = 'segment.relate_segment'

    def harness(c):
        a, b, d, f = ends(c)
        goal, test = G.Segment(a, b), G.Segment(d, f)
        kind, r = c.outcome(M.segment.relate_segment, goal, test, VContext())
        if kind == 'raise' or r not in ADMISSIBLE:
            c.prove(False, label + ': one of the relations of segments',
                    repr(r))
        s, t = ordered(c, a, b)
        p, q = ordered(c, d, f)
        c.prove(expected(c, r, p, q, s, t),
                label + ': %s by the ends' % r.name)
        c.cover(label + ' returns ' + r.name)
    return e.explore(harness)


GROUPS = {'segment.relate': relate}


def meaning(M):
    """The relation by the ends against the two sets of points."""
    e = Engine('segment.meaning', timeout=60000, functions=[])

    def harness(c):
        a, b, d, f = ends(c)
        s, t, p, q = a, b, d, f
        c.assume(less(s, t))
        c.assume(less(p, q))
        r = c.choose(ADMISSIBLE)
        c.assume(expected(c, r, p, q, s, t))
        label = 'meaning of %s' % r.name
        c.cover(label)
        what = c.choose(('common', 'unique', 'exists', 'test', 'goal'))
        z = sym_point(c, 'z')
        if what == 'common':
            if r is not R.DISJOINT:
                raise Stop
            c.assume(on_closed(z, p, q))
            c.prove(z3.Not(on_closed(z, s, t)), label + ': nothing common')
        elif what == 'unique':
            if r not in (R.TOUCH, R.CROSS):
                raise Stop
            w = sym_point(c, 'w')
            c.assume(on_closed(z, p, q))
            c.assume(on_closed(z, s, t))
            c.assume(on_closed(w, p, q))
            c.assume(on_closed(w, s, t))
            c.prove(same(z, w), label + ': one common point at most')
        elif what == 'exists':
            if r is R.TOUCH:
                # an end that belongs to the other segment, by definition
                raise Stop
            elif r is R.CROSS:
                k = c.real('k').e
                dp, dq = det(s, t, p), det(s, t, q)
                c.assume(k * (dp - dq) == dp)
                c.assume(X(z) == X(p) + k * (X(q) - X(p)))
                c.assume(Y(z) == Y(p) + k * (Y(q) - Y(p)))
                c.prove(on_closed(z, p, q), label + ': a point of the test')
                c.prove(on_closed(z, s, t), label + ': a point of the goal')
                for x in (p, q, s, t):
                    c.prove(z3.Not(same(z, x)), label + ': not an end')
            elif r is R.OVERLAP:
                k = c.branch(less(p, s))
                lo, hi = (s, q) if k else (p, t)
                c.prove(less(lo, hi), label + ': the common piece has '
                        'length')
                c.prove(z3.And(on_closed(lo, p, q), on_closed(lo, s, t),
                               on_closed(hi, p, q), on_closed(hi, s, t)),
                        label + ': the piece is common')
                out = (p, t) if k else (q, s)
                c.prove(z3.And(z3.Not(on_closed(out[0], s, t)),
                               z3.Not(on_closed(out[1], p, q))),
                        label + ': each has a piece outside of the other')
            else:
                raise Stop
        elif what == 'test':
            if r not in (R.COMPONENT, R.EQUAL):
                raise Stop
            c.assume(on_closed(z, p, q))
            c.prove(on_closed(z, s, t), label + ': the test is a part')
        else:
            if r is R.COMPONENT:
                c.prove(z3.Or(z3.Not(on_closed(s, p, q)),
                              z3.Not(on_closed(t, p, q))),
                        label + ': the goal has other points')
                raise Stop
            if r is R.COMPOSITE:
                c.prove(z3.Or(z3.Not(on_closed(p, s, t)),
                              z3.Not(on_closed(q, s, t))),
                        label + ': the test has other points')
            elif r is not R.EQUAL:
                raise Stop
            c.assume(on_closed(z, s, t))
            c.prove(on_closed(z, p, q), label + ': the goal is a part')
    return e.explore(harness)


def intersection(r, first, second):
    """The point the context reports for touching and crossing segments."""
    def group(M):
        e = Engine('segment.intersection', timeout=60000, functions=[])
        label = 'segments_intersection'

        def harness(c):
            a, b, d, f = ends(c)
            s, t = (a, b) if first else (b, a)
            p, q = (d, f) if second else (f, d)
            c.assume(less(s, t))
            c.assume(less(p, q))
            c.assume(expected(c, r, p, q, s, t))
            kind, z = c.outcome(VContext().segments_intersection,
                                G.Segment(d, f), G.Segment(a, b))
            if kind == 'raise':
                c.prove(False, label + ': a point', repr(z))
            c.prove(on_closed(z, p, q), label + ': a point of the first')
            c.prove(on_closed(z, s, t), label + ': a point of the second')
            c.prove(z3.And(le(p, z), le(z, q), le(s, z), le(z, t)),
                    label + ': between the ends')
            at_end = z3.Or(*(same(z, x) for x in (p, q, s, t)))
            c.prove(at_end if r is R.TOUCH else z3.Not(at_end),
                    label + ': at an end iff the segments touch')
            c.cover('%s %s' % (label, r.name))
        return e.explore(harness)
    return group


GROUPS['segment.meaning'] = meaning
for _r in (R.TOUCH, R.CROSS):
    for _k in range(4):
        GROUPS['segment.intersection.%s.%d' % (_r.name.lower(), _k)] = \
            intersection(_r, _k & 1, _k & 2)
