"""Contracts of the crossing angles at a common point."""
import itertools
import time

import z3

from ..engine import Engine
from ..model import *  # noqa

EIGHT = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1),
         (1, -1)]


def det2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def alike(a, b):
    return z3.And(det2(a, b) == 0, dot(a, b) > 0)


def arc(t, a, b):
    """The direction is strictly inside of the turn from a to b to the
    left; it is none of the two, which are different."""
    d = det2(a, b)
    return z3.If(d > 0, z3.And(det2(a, t) > 0, det2(t, b) > 0),
                 z3.If(d < 0, z3.Or(det2(a, t) > 0, det2(t, b) > 0),
                       det2(a, t) > 0))


def vec(o, p):
    return X(p) - X(o), Y(p) - Y(o)


def point(M):
    """_point_in_angle tells on which side of an angle a ray goes."""
    e = Engine('angles.point', timeout=60000, functions=[
        'LinearEventsQueue._point_in_angle'])
    label = '_point_in_angle'

    def harness(c):
        v, a, b, p = (sym_point(c, n) for n in 'vabp')
        c.assume(z3.Not(z3.Or(same(v, a), same(v, b), same(v, p))))
        da, db, dp = vec(v, a), vec(v, b), vec(v, p)
        c.assume(z3.Not(alike(da, db)))
        c.assume(z3.And(z3.Not(alike(da, dp)), z3.Not(alike(db, dp))))
        ctx = VContext()
        q = M.events_queue.LinearEventsQueue(ctx)
        o = ctx.angle_orientation(v, a, b)
        kind, r = c.outcome(q._point_in_angle, p, v, a, b, o)
        if kind == 'raise' or type(r) is not bool:
            c.prove(False, label + ': tells', repr(r))
        inside = arc(dp, da, db)
        if c.branch(det2(da, db) < 0):
            inside = arc(dp, db, da)    # the angle less than a half-turn
        c.prove(inside if r else z3.Not(inside),
                label + ': whether a ray is inside of the angle')
        c.cover('%s %s' % (label, r))
    return e.explore(harness)


def sides(M):
    """Rays in one angle of some goal rays are in one for the first one."""
    e = Engine('angles.first_ray', timeout=120000, functions=[])

    def harness(c):
        vs = [(c.glob(n + '_x', z3.RealSort()), c.glob(n + '_y',
                                                       z3.RealSort()))
              for n in ('first', 'second', 'third', 't')]
        g, a, b, t = vs
        for x in vs:
            c.assume(z3.Or(x[0] != 0, x[1] != 0))
        for x, y in itertools.combinations(vs, 2):
            c.assume(z3.Not(alike(x, y)))
        # g, a, b go around to the left or to the right
        left = arc(b, a, g)
        i, j, k = arc(t, a, b), arc(t, g, a), arc(t, g, b)
        odd = z3.Xor(i, z3.Xor(j, k))
        if c.branch(left):
            c.prove(z3.Not(odd), 'two goal rays separate what one of them '
                    'and the first separate: first not between')
        else:
            c.prove(odd, 'two goal rays separate what one of them and the '
                    'first separate: first between')
        c.cover('angles')
    return e.explore(harness)


def separated(tests, goals):
    """Some two test directions are separated by some two goal ones."""
    def half(u, a, b):
        d = det2(a, b)
        if d > 0:
            return det2(a, u) > 0 and det2(u, b) > 0
        if d < 0:
            return det2(a, u) > 0 or det2(u, b) > 0
        return det2(a, u) > 0
    return any(half(s, a, b) != half(t, a, b)
               for a, b in itertools.combinations(goals, 2)
               for s, t in itertools.combinations(tests, 2))


def detect(M):
    """Bounded: all groups of at most four events in eight directions, and
    rotations of all groups of five and six."""
    t0 = time.time()
    label = 'LinearEventsQueue.detect_crossing_angles'
    SR = M.enums.SegmentsRelation
    P = G.Point
    n = bad = 0
    fails = []
    q = M.events_queue.LinearEventsQueue(REAL)

    def event(d, test, left, rel):
        at, far = P(3, 5), P(3 + d[0], 5 + d[1])
        K = M.event.LinearLeftEvent
        ev = K(at if left else far, None, far, test, rel)
        ev.right = M.event.RightEvent(far if left else at, ev, far)
        return ev if left else ev.right

    def groups():
        for k in range(5):
            for ds in itertools.permutations(EIGHT, k):
                for ts in itertools.product((True, False), repeat=k):
                    yield ds, ts
        for k in (5, 6):
            for ds in itertools.combinations(EIGHT, k):
                for ts in itertools.product((True, False), repeat=k):
                    for i in range(k):
                        yield ds[i:] + ds[:i], ts[i:] + ts[:i]
    for ds, ts in groups():
        n += 1
        rels = [list(SR)[(n + 3 * i) % 4] for i in range(len(ds))]
        evs = [event(d, t, d > (0, 0), r) for d, t, r in zip(ds, ts, rels)]
        try:
            v = q.detect_crossing_angles(list(evs))
            got = [(x if x.is_left else x.left).relation for x in evs]
        except Exception as ex:
            v, got = ex, None
        over = separated([d for d, t in zip(ds, ts) if t],
                         [d for d, t in zip(ds, ts) if not t])
        want = [max(r, SR.CROSS) if over else r for r in rels]
        if got != want or v is not None:
            bad += 1
            if len(fails) < 3:
                fails.append({'label': label + ': crossing exactly when '
                              'goal rays separate test rays',
                              'status': 'failed', 'path': [], 'note': {},
                              'detail': 'directions %s, from test %s: '
                              'expected %s, got %s' % (ds, ts, want,
                                                       got or repr(v))})
    return bounded('angles.detect', [label], n, bad, fails,
                   time.time() - t0, 'exhaustive: ordered groups of at most '
                   '4 events in 8 directions, rotations of all groups of 5 '
                   'and 6')


def bounded(name, functions, n, bad, fails, seconds, text):
    """Summary of a bounded stand-in (never counted as proved)."""
    return {'group': name, 'functions': [], 'bounded': text,
            'stands_in_for': functions, 'obligations': 0, 'vcs': n,
            'vcs_discharged': n - bad, 'labels': {}, 'failures': fails,
            'undecided': [], 'paths': n, 'pruned': 0, 'loop_heads': 0,
            'loop_states': 0, 'queries': 0, 'solver_s': 0,
            'seconds': round(seconds, 1), 'backends': {}, 'covers': {}}


GROUPS = {'angles.point': point, 'angles.first_ray': sides,
          'angles.detect': detect}
