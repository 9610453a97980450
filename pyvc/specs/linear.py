"""A segment against a contour, by the sides its vertices lie on.

Every vertex of the contour belongs to one class relative to the test
segment from S to E: L, R (off the line), B (before S), S, I (between), E,
A (after E).  How an edge relates to the segment follows from the classes of
its ends (groups linear.table and linear.turns prove that over the reals),
except for an edge from one side to the other.
"""
import functools

import z3

from ..engine import Engine, Fold, ISeq, SInt, SSeq
from ..model import *  # noqa
from .segment import expected

R, O = Relation, Orientation
LINE = 'BSIEA'
CLASSES = 'LRBSIEA'
BETWEEN = (R.CROSS, R.TOUCH, R.DISJOINT)

# relation of the segment to an edge with ends of such classes
TABLE = {}


def _row(r, *pairs):
    for p in pairs:
        TABLE[frozenset(p)] = r


_row(R.DISJOINT, 'LL', 'RR', 'LB', 'LA', 'RB', 'RA', 'BB', 'AA')
_row(R.TOUCH, 'LS', 'LI', 'LE', 'RS', 'RI', 'RE', 'BS', 'EA')
_row(R.OVERLAP, 'BI', 'IA')
_row(R.COMPONENT, 'BE', 'BA', 'SA')
_row(R.COMPOSITE, 'SI', 'II', 'IE')
_row(R.EQUAL, 'SE')


def relations(x, y):
    """How the segment may relate to the edge between the classes."""
    k = frozenset((x, y))
    if k == frozenset('LR'):
        return BETWEEN
    return (TABLE[k],)


def classed(v, cls, s, e, forward):
    """The point is of the class relative to s and e."""
    d = det(s, e, v)
    lt = less if forward else (lambda x, y: less(y, x))
    return {'L': d > 0, 'R': d < 0,
            'B': z3.And(d == 0, lt(v, s)), 'S': same(v, s),
            'I': z3.And(d == 0, lt(s, v), lt(v, e)), 'E': same(v, e),
            'A': z3.And(d == 0, lt(e, v))}[cls]


def table(M):
    """The table of relations holds for all points."""
    e = Engine('linear.table', timeout=60000, functions=[])

    def harness(c):
        s, t, a, b = (sym_point(c, n) for n in 'stab')
        fwd = c.choose((True, False))
        c.assume(less(s, t) if fwd else less(t, s))
        i = c.choose(range(7))
        j = c.choose(range(i, 7))
        x, y = CLASSES[i], CLASSES[j]
        c.assume(classed(a, x, s, t, fwd))
        c.assume(classed(b, y, s, t, fwd))
        if x == y and x in 'SE':
            raise Stop
        c.assume(z3.Not(same(a, b)))
        rs = relations(x, y)
        p, q = (s, t) if fwd else (t, s)
        u, v = (a, b) if c.branch(less(a, b)) else (b, a)
        c.prove(z3.Or(*(expected(c, r, p, q, u, v) for r in rs)),
                'an edge %s-%s: %s' % (x, y, ' or '.join(r.name
                                                         for r in rs)))
        if c.check([]) == 'unsat':
            raise Stop
        c.cover('%s-%s' % (x, y))
    return e.explore(harness)


def complete(M):
    """Every point is of exactly one class."""
    e = Engine('linear.classes', timeout=60000, functions=[])

    def harness(c):
        s, t, a = (sym_point(c, n) for n in 'sta')
        fwd = c.choose((True, False))
        c.assume(less(s, t) if fwd else less(t, s))
        fs = [classed(a, x, s, t, fwd) for x in CLASSES]
        c.prove(z3.PbEq([(f, 1) for f in fs], 1),
                'a point is of one class')
    return e.explore(harness)


ORDER = {x: i for i, x in enumerate(LINE)}


def turn(x, y, z):
    """Orientation of the angle with the vertex x, by classes, or None.

    Two of them are on the line at different places, one is off it."""
    p = (x, y, z)
    off = [i for i in range(3) if p[i] in 'LR']
    if not off:
        return O.COLLINEAR
    if len(off) > 1:
        return None
    k = off[0]
    u, v = p[(k + 1) % 3], p[(k + 2) % 3]
    if u == v:
        return O.COLLINEAR if u in 'SE' else None
    left = (p[k] == 'L') == (ORDER[u] < ORDER[v])
    return O.COUNTERCLOCKWISE if left else O.CLOCKWISE


def turns(M):
    """The orientations by classes hold for all points."""
    e = Engine('linear.turns', timeout=60000, functions=[])

    def harness(c):
        s, t = sym_point(c, 's'), sym_point(c, 't')
        ps = [sym_point(c, n) for n in 'abd']
        fwd = c.choose((True, False))
        c.assume(less(s, t) if fwd else less(t, s))
        names = [c.choose(CLASSES) for _ in range(3)]
        w = turn(*names)
        if w is None:
            raise Stop
        for p, x in zip(ps, names):
            c.assume(classed(p, x, s, t, fwd))
        d = det(*ps)
        c.prove({O.COLLINEAR: d == 0, O.COUNTERCLOCKWISE: d > 0,
                 O.CLOCKWISE: d < 0}[w], 'the turn of %s%s%s' % tuple(names))
        c.cover('turns')
    return e.explore(harness)


LAZY = {'P': 'BA', 'T': 'SE'}


class V:
    """A point known by its class; which end it is at comes out later."""

    def __init__(self, cls):
        self.rough = cls

    @property
    def cls(self):
        if self.rough in LAZY:
            self.rough = E.ctl().choose(LAZY[self.rough])
        return self.rough

    @property
    def side(self):
        return self.rough if self.rough in 'LR' else None

    def __eq__(self, o):
        if not isinstance(o, V):
            return NotImplemented
        if self is o:
            return True
        if self.rough in 'LRPBAI' or o.rough in 'LRPBAI':
            return False
        return self.cls == o.cls

    __hash__ = None

    def _no(self, *a):
        raise Undecided('coordinates of a vertex known by its class')

    __lt__ = __gt__ = __le__ = __ge__ = _no
    x = y = property(_no)

    def __pyvc_describe__(self, env):
        if id(self) in env.ids:
            return ('ref', env.ids[id(self)])
        env.ids[id(self)] = len(env.ids)
        return ('vertex', self.rough)


class ClassContext(VContext):
    def angle_orientation(self, a, b, d):
        if a is b or b is d or a is d:
            return O.COLLINEAR
        w = turn(a.cls, b.cls, d.cls)
        if w is None:
            raise Undecided('angle of %s%s%s' % (a.cls, b.cls, d.cls))
        return w

    def segments_relation(self, test, goal):
        raise Undecided('relation of segments past its contract')

    segments_intersection = segment_contains_point = segments_relation


class Cyclic(SSeq):
    """Vertices of which the loop remembers the last two.

    A vertex met at the beginning is forgotten and chosen anew when it is
    met at the end: a superset of the contours."""

    def window(self, p, mark):
        c = E.ctl()
        win = SSeq.window(self, p, mark)
        if c._entailed(p == self.n):
            # the first vertex, whatever term its position was
            for t, v in self.entries:
                if c._entailed(t == 0) and not any(v is w for _, w in win):
                    win.append((None, v))
                    break
        return win

    def rewindow(self, p, win, mark):
        c = E.ctl()
        keep = [(z3.IntVal(0), v) for k, v in win if k is None]
        win = [(k, v) for k, v in win if k is not None]
        for t, v in self.entries:
            at_end = c._entailed(t == self.n - 1)
            if at_end and c._entailed(p <= 1) or (
                    c._entailed(t == 0) and c._entailed(p == self.n)):
                if not any(v is w for _, w in keep):
                    keep.append((self.n - 1 if at_end else z3.IntVal(0), v))
        have = [id(v) for _, v in keep]
        self.entries = keep + [(z3.simplify(p - k), v) for k, v in win
                               if id(v) not in have]


def contour_segment(M, last):
    """The contours whose last vertex is of the class `last`."""
    label = 'contour.relate_segment'
    e = Engine(label, functions=[
        label, 'contour.point_vertex_line_divides_angle'])

    def harness(c):
        n = c.glob('n_v', z3.IntSort())
        c.assume(n >= 3)

        def make(p):
            return V(last if c._entailed(p == n - 1)
                     else c.choose('LRPTI'))
        vs = Cyclic('v', n, make,
                    marks=(z3.simplify(n - 1),))
        S, T = V('S'), V('E')
        memo = {'pair': None}

        def choice(a, b):
            if not (a.side and b.side):
                if a.side or b.side:
                    w = b if a.side else a
                    return TABLE[frozenset((
                        a.side or b.side,
                        LAZY.get(w.rough, w.rough)[0]))]
                if a == b:
                    raise Stop      # the ends of an edge are different
            return c.choose(relations(a.cls, b.cls))

        def edge(a, b):
            k = frozenset((id(a), id(b)))
            if memo['pair'] != k:
                memo['pair'], memo['keep'] = k, (a, b)
                memo['relation'] = choice(a, b)
            return memo['relation']

        def whole(g):
            return isinstance(g, G.Segment) and (
                g.start is S and g.end is T or g.start is T and g.end is S)

        def relate(goal, test, context):
            c.prove(isinstance(context, ClassContext),
                    label + ': passes the context on')
            if whole(test) and not whole(goal):
                return edge(goal.start, goal.end)
            if whole(goal) and not whole(test):
                return edge(test.start, test.end).complement
            raise Undecided('relation of other segments')
        M.stub_again('segment', 'relate_segment', relate)

        def corner(a, b, d):
            """The contour passes a, b, d: does it cross at b?"""
            if not (a.side or b.side or d.side):
                raise Stop      # a contour turns at every vertex
            return bool(b.rough == 'I' and a.side and d.side
                        and a.side != d.side)

        def step(state, p):
            comp, over, cross, touch = state
            if c.branch(p == 0):
                b, d = vs.at(z3.simplify(n - 1)), vs.at(p)
            else:
                b, d = vs.at(z3.simplify(p - 1)), vs.at(p)
                a = vs.at(z3.simplify(n - 1 if c.branch(p == 1)
                                      else p - 2))
                cross |= corner(a, b, d)
                if c.branch(p == n - 1):
                    cross |= corner(b, d, vs.at(z3.IntVal(0)))
            r = edge(b, d)
            comp |= r in (R.COMPONENT, R.EQUAL)
            over |= r in (R.OVERLAP, R.COMPOSITE)
            if comp and over:
                raise Stop      # edges of a contour do not overlap
            touch |= r is R.TOUCH
            cross |= r is R.CROSS
            return comp, over, cross, touch
        c.folds[n.get_id()] = Fold((False,) * 4, step)
        kind, v = c.outcome(M.contour.relate_segment, G.Contour(vs),
                            G.Segment(S, T), ClassContext())
        if kind == 'raise':
            c.prove(False, label + ': no exception', repr(v))
        run = c.fold_run.get(n.get_id(), (False,) * 4)
        done = c.fold_done.get(n.get_id())
        comp, over, cross, touch = run
        if v is R.COMPONENT:
            c.prove(comp, label + ': COMPONENT iff an edge holds the '
                    'segment')
        elif v is R.OVERLAP:
            c.prove(over, label + ': OVERLAP iff there is a common piece')
        else:
            c.prove(done is not None and not comp and not over,
                    label + ': all edges are looked at')
            want = (R.CROSS if cross else
                    R.TOUCH if touch else R.DISJOINT)
            c.prove(v is want, label + ': %s by the edges and vertices'
                    % want.name, repr(v))
        c.cover('%s returns %s' % (label, getattr(v, 'name', v)))
    s = e.explore(harness).summary()
    s['assumed'] = ['three consecutive vertices of a contour are not on one '
                    'line, its edges do not overlap one another']
    return s


GROUPS = {'linear.classes': complete,
          'linear.table': table,
          'linear.turns': turns}
GROUPS.update({'linear.contour.%s' % k: functools.partial(
    contour_segment, last=k) for k in 'LRPTI'})
