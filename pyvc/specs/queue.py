"""Contracts of the events: registration, order, division."""
import z3

from ..engine import Engine, Fold, ISeq, SInt, SSeq
from ..model import *  # noqa


class Pushes:
    """The priority queue as a recorder of what was pushed."""

    def __init__(self, *a, **k):
        self.items = []
        c = E.ctl()
        if c is not None:
            c.note['queue'] = self
            c.ghosts.append(self)

    def push(self, x):
        self.items.append(x)

    def __pyvc_describe__(self, env):
        return ('pushes', env.describe(self.items))

    def __len__(self):
        raise Undecided('size of the queue')

    def __bool__(self):
        raise Undecided('size of the queue')


def stub_queue(M, repl):
    import prioq.base
    for mod in M.all:
        for k, v in list(mod.__dict__.items()):
            if v is prioq.base.PriorityQueue:
                mod.__dict__[k] = repl


CLASSES = (('LinearEventsQueue', 'LinearLeftEvent'),
           ('CompoundEventsQueue', 'CompoundLeftEvent'))


def check_event_pair(c, M, items, a, b, from_test, compound, label):
    c.prove(len(items) == 2, label + ': two events for a segment')
    l, r = items
    if not l.is_left:
        l, r = r, l
    c.prove(l.is_left is True and r.is_left is False and l.right is r
            and r.left is l, label + ': a left and a right event are linked')
    fwd = c.branch(less(a, b))
    s, t = (a, b) if fwd else (b, a)
    c.prove(l.start is s and r.start is t and l.end is t and r.end is s,
            label + ': the left event starts at the lesser endpoint')
    c.prove(l.original_start is s and l.original_end is t
            and r.original_start is t and r.original_end is s,
            label + ': original endpoints')
    c.prove(l.from_test is from_test and l.from_goal is (not from_test)
            and r.from_test is from_test
            and r.from_goal is (not from_test), label + ': origin')
    c.prove(l.relation is M.enums.SegmentsRelation.DISJOINT,
            label + ': no relation yet')
    if compound:
        c.prove(l.interior_to_left is fwd,
                label + ': the interior is to the left of the given '
                'direction')
        c.prove(l.other_interior_to_left is False
                and l.overlap_kind is M.enums.OverlapKind.NONE,
                label + ': not overlapping, outside at first')


def register(M):
    e = Engine('events.register', functions=[
        'LinearEventsQueue.register', 'CompoundEventsQueue.register',
        'LinearLeftEvent.from_endpoints', 'CompoundLeftEvent.from_endpoints',
        'LinearLeftEvent.*', 'CompoundLeftEvent.*', 'RightEvent.*'])
    stub_queue(M, Pushes)

    def harness(c):
        name, _ = c.choose(CLASSES)
        label = name + '.register'
        from_test = c.choose((True, False))
        cls = getattr(M.events_queue, name)
        n = c.glob('n_s', z3.IntSort())
        c.assume(n >= 0)

        def make(p):
            a, b = fresh_point(c, 'a'), fresh_point(c, 'b')
            c.assume(z3.Not(same(a, b)))
            return a, b

        class Ghost:
            last = None

            def step(self, p, v):
                self.last = v

            def before(self):
                q = c.note['queue']
                if self.last is None:
                    c.prove(q.items == [], label + ': nothing else is '
                            'pushed')
                else:
                    check_event_pair(c, M, q.items, *self.last, from_test,
                                     name[0] == 'C', label)
                q.items.clear()
                self.last = None

            def __pyvc_describe__(self, env):
                return env.describe(self.last)
        ghost = Ghost()
        ss = SSeq('s', n, make, ghost=ghost, windowed=False)
        kind, q = c.outcome(cls, VContext())
        if kind == 'raise':
            c.prove(False, label + ': the queue is made', repr(q))
        kind, v = c.outcome(q.register, ss, from_test=from_test)
        if kind == 'raise':
            c.prove(False, label + ': no exception', repr(v))
        c.prove(v is None, label + ': returns nothing')
        ghost.before()
        c.cover(label + ' ends')
    return e.explore(harness)


def mk_event(c, M, cls, name, from_test):
    """A left event over a non-degenerate symbolic segment."""
    s, t = fresh_point(c, name + 's'), fresh_point(c, name + 't')
    c.assume(less(s, t))
    K = getattr(M.event, cls)
    # an event of a divided segment keeps the ends of the whole one
    os, ot = fresh_point(c, name + 'os'), fresh_point(c, name + 'ot')
    SR = M.enums.SegmentsRelation
    args = (s, None, os, from_test, SR.DISJOINT)
    ev = (K(*args, c.choose((True, False))) if cls[0] == 'C'
          else K(*args))
    ev.right = M.event.RightEvent(t, ev, ot)
    return ev


def queue_order(M):
    """Events are processed by point, right ends first, from below."""
    e = Engine('events.order', functions=['EventsQueueKey.__lt__'])
    label = 'EventsQueueKey'

    def harness(c):
        ft, gt = c.choose(((True, False), (False, True), (True, True),
                           (False, False)))
        a = mk_event(c, M, 'LinearLeftEvent', 'a', ft)
        b = mk_event(c, M, 'LinearLeftEvent', 'b', gt)
        a = a if c.choose((True, False)) else a.right
        b = b if c.choose((True, False)) else b.right
        K = M.events_queue.EventsQueueKey
        ori = VContext().angle_orientation
        kind, v = c.outcome(lambda: K(ori, a) < K(ori, b))
        if kind == 'raise' or type(v) is not bool:
            c.prove(False, label + ': compares', repr(v))
        p, q = a.start, b.start
        if not c.branch(same(p, q)):
            c.prove(less(p, q) if v else z3.Not(less(p, q)),
                    label + ': points are processed in lexicographic order')
        elif a.is_left is not b.is_left:
            c.prove(v is b.is_left, label + ': right ends go first')
        else:
            d = det(p, a.end, b.end)
            if c.branch(d == 0):
                if ft is not gt:
                    k2, w = c.outcome(lambda: K(ori, b) < K(ori, a))
                    c.prove(w is (not v), label + ': overlapping segments '
                            'of both geometries are ordered')
            else:
                up = d > 0 if a.is_left else d < 0
                c.prove(up if v else z3.Not(up),
                        label + ': from the lowest segment')
        c.cover('%s %s' % (label, v))
    return e.explore(harness)


def sweep_order(M):
    """The sweep line is ordered from below to above."""
    e = Engine('events.sweep_order', functions=['SweepLineKey.__lt__'],
               timeout=30000)
    label = 'SweepLineKey'

    def harness(c):
        ft, gt = c.choose(((True, False), (False, True), (True, True)))
        a = mk_event(c, M, 'LinearLeftEvent', 'a', ft)
        b = mk_event(c, M, 'LinearLeftEvent', 'b', gt)
        p, q, r, s = a.start, a.end, b.start, b.end
        # both are under the sweep line at the same time
        c.assume(z3.And(less(p, s), less(r, q)))
        K = M.sweep_line.SweepLineKey
        ori = VContext().angle_orientation
        d1, d2 = det(p, q, r), det(p, q, s)
        d3, d4 = det(r, s, p), det(r, s, q)
        # not crossing properly
        c.assume(z3.Not(z3.And(d1 * d2 < 0, d3 * d4 < 0)))
        if not c.branch(less(r, p)):
            # b starts over the span of a
            up = z3.Or(d1 > 0, z3.And(d1 == 0, d2 > 0))
            over = z3.And(d1 == 0, d2 == 0)
        else:
            up = z3.Or(d3 < 0, z3.And(d3 == 0, d4 < 0))
            over = z3.And(d3 == 0, d4 == 0)
        kind, v = c.outcome(lambda: K(ori, a) < K(ori, b))
        if kind == 'raise' or type(v) is not bool:
            c.prove(False, label + ': compares', repr(v))
        if c.branch(over):
            if ft is not gt:
                k2, w = c.outcome(lambda: K(ori, b) < K(ori, a))
                c.prove(w is (not v), label + ': overlapping segments of '
                        'both geometries are ordered')
        else:
            c.prove(up if v else z3.Not(up),
                    label + ': the lower segment is less')
        c.cover('%s %s' % (label, v))
        k2, w = c.outcome(lambda: K(ori, a) < K(ori, a))
        c.prove(w is False, label + ': not less than itself')
    return e.explore(harness)


def le(p, q):
    return z3.Or(less(p, q), same(p, q))


class PairContext(VContext):
    """How two segments lie is chosen by the contract of the context."""

    def __init__(self, first, second):
        self.ends = {id(first): (first.start, first.end),
                     id(second): (second.start, second.end)}
        self.first, self.second = first, second
        self.relation = self.point = None

    def segments_relation(self, a, b):
        c = E.ctl()
        if {id(a), id(b)} != {id(self.first), id(self.second)}:
            raise Undecided('segments_relation of other segments')
        if self.relation is None:
            self.relation = self.choose(c)
        r = self.relation
        return r if a is self.first else r.complement

    def choose(self, c):
        (p, q), (s, t) = (self.ends[id(self.first)],
                          self.ends[id(self.second)])
        R = Relation
        r = c.choose((R.DISJOINT, R.TOUCH, R.CROSS, R.OVERLAP, R.COMPONENT,
                      R.COMPOSITE, R.EQUAL))
        alike = self.first.from_test is self.second.from_test
        if alike and r not in (R.DISJOINT, R.TOUCH):
            raise Stop          # segments of one geometry do not
        if r in (R.TOUCH, R.CROSS):
            x = self.point = fresh_point(c, 'common')
            c.assume(z3.And(le(p, x), le(x, q), le(s, x), le(x, t)))
            ends = z3.Or(*(same(x, y) for y in (p, q, s, t)))
            c.assume(ends if r is R.TOUCH else z3.Not(ends))
            if alike:
                # of one geometry: at an end of at least one of them
                c.assume(ends)
        elif r is R.OVERLAP:
            c.assume(z3.Or(z3.And(less(p, s), less(s, q), less(q, t)),
                           z3.And(less(s, p), less(p, t), less(t, q))))
        elif r is R.COMPONENT:
            c.assume(z3.And(le(s, p), le(q, t),
                            z3.Not(z3.And(same(s, p), same(q, t)))))
        elif r is R.COMPOSITE:
            c.assume(z3.And(le(p, s), le(t, q),
                            z3.Not(z3.And(same(s, p), same(q, t)))))
        elif r is R.EQUAL:
            c.assume(z3.And(same(s, p), same(q, t)))
        if c.check([]) == 'unsat':
            raise Stop
        return r

    def segments_intersection(self, a, b):
        c = E.ctl()
        c.prove({id(a), id(b)} == {id(self.first), id(self.second)}
                and self.relation in (Relation.TOUCH, Relation.CROSS),
                'detect_intersection: a single common point is asked of '
                'the segments that have one')
        return self.point

    def angle_orientation(self, a, b, d):
        if self.relation in (None, Relation.DISJOINT, Relation.TOUCH,
                             Relation.CROSS):
            return VContext.angle_orientation(self, a, b, d)
        return Orientation.COLLINEAR

    def __pyvc_describe__(self, env):
        raise Undecided('context at a loop head')


def check_chain(c, M, ev, other, before, inner, pushed, compound, label):
    """The event's segment is cut exactly at the inner points."""
    start, end, right, os, ot, test, side = before
    pieces = [ev]
    rest = [x for x in pushed if x.is_left and x is not other
            and x.from_test is test]
    while not c.branch(same(pieces[-1].end, end)):
        nxt = None
        for x in rest:
            if c.branch(same(x.start, pieces[-1].end)):
                nxt = x
                break
        c.prove(nxt is not None, label + ': the pieces join')
        rest.remove(nxt)
        pieces.append(nxt)
    c.prove(ev.start is start, label + ': the event keeps its start')
    cuts = [x.start for x in pieces[1:]]
    c.prove(z3.And(*(less(x.start, x.end) for x in pieces)),
            label + ': the pieces are not degenerate')
    for p in inner:
        c.prove(z3.Or(z3.BoolVal(False), *(same(p, q) for q in cuts)),
                label + ': cut at every common inner point')
    c.prove(len(cuts) == len(inner), label + ': cut at common inner points '
            'only')
    c.prove(pieces[-1].right is right, label + ': the last piece keeps the '
            'right end')
    rights = [x for x in pushed if not x.is_left]
    for k, x in enumerate(pieces):
        c.prove(x.right.left is x and x.right.is_left is False
                and x.right.end is x.start
                and c.branch(same(x.right.start, x.end)),
                label + ': left and right ends of a piece are linked')
        c.prove(x.original_start is os and x.original_end is ot
                and x.right.original_start is ot
                and x.right.original_end is os,
                label + ': the original ends are kept')
        c.prove(x.from_test is test and x.right.from_test is test,
                label + ': the origin is kept')
        if compound:
            c.prove(x.interior_to_left is side,
                    label + ': the side of the interior is kept')
        if k:
            c.prove(sum(y is x for y in pushed) == 1,
                    label + ': every new piece is queued once')
        if x.right is not right:
            c.prove(sum(y is x.right for y in rights) == 1,
                    label + ': every new right end is queued once')
    return pieces


def detect(cls, ev_cls, name):
    def group(M):
        e = Engine(name, functions=[
            cls + '.detect_intersection', cls + '._divide_segment',
            ev_cls + '.divide'])
        stub_queue(M, Pushes)
        label = name
        compound = cls[0] == 'C'

        def harness(c):
            ft, gt = c.choose(((True, False), (False, True), (True, True),
                               (False, False)))
            a = mk_event(c, M, ev_cls, 'a', ft)
            b = mk_event(c, M, ev_cls, 'b', gt)
            ctx = PairContext(a, b)
            kind, q = c.outcome(getattr(M.events_queue, cls), ctx)
            if kind == 'raise':
                c.prove(False, label + ': the queue is made', repr(q))
            saved = [(x.start, x.end, x.right, x.original_start,
                      x.original_end, x.from_test,
                      x.interior_to_left if compound else None)
                     for x in (a, b)]
            SR = M.enums.SegmentsRelation
            r0 = c.choose((SR.DISJOINT, SR.TOUCH))
            a.relation = r0
            kind, v = c.outcome(q.detect_intersection, a, b)
            if kind == 'raise':
                c.prove(False, label + ': no exception', repr(v))
            R, rel = Relation, ctx.relation
            c.prove(rel is not None, label + ': the segments are related')
            (p, pe), (s, se) = saved[0][:2], saved[1][:2]
            pushed = c.note['queue'].items

            def strictly(x, lo, hi):
                return c.branch(z3.And(less(lo, x), less(x, hi)))
            if rel is R.DISJOINT:
                ia, ib = [], []
            elif rel in (R.TOUCH, R.CROSS):
                ia = [x for x in (ctx.point,) if strictly(x, p, pe)]
                ib = [x for x in (ctx.point,) if strictly(x, s, se)]
            else:
                ia = [x for x in (s, se) if strictly(x, p, pe)]
                ib = [x for x in (p, pe) if strictly(x, s, se)]
            pa = check_chain(c, M, a, b, saved[0], ia,
                             [x for x in pushed if ft is not gt
                              or not ib], compound, label)
            pb = check_chain(c, M, b, a, saved[1], ib,
                             [x for x in pushed if ft is not gt
                              or ib], compound, label)
            c.prove(len(pushed) == 2 * (len(ia) + len(ib)),
                    label + ': nothing else is queued')
            c.prove(all(x.relation is r0 for x in pa)
                    and all(x.relation is SR.DISJOINT for x in pb),
                    label + ': relations found before are kept')
            if compound:
                OK = M.enums.OverlapKind
                over = rel not in (R.DISJOINT, R.TOUCH, R.CROSS)
                if over and c.branch(same(p, s)):
                    k = (OK.SAME_ORIENTATION
                         if a.interior_to_left is b.interior_to_left
                         else OK.DIFFERENT_ORIENTATION)
                    c.prove(a.overlap_kind is k and b.overlap_kind is k,
                            label + ': overlapping pieces know the sides of '
                            'the interiors')
                    c.prove(v is True, label + ': tells about the overlap')
                else:
                    c.prove(a.overlap_kind is OK.NONE
                            and b.overlap_kind is OK.NONE,
                            label + ': others do not overlap')
                    c.prove(v is False, label + ': tells about no overlap')
                c.prove(all(x.overlap_kind is OK.NONE
                            for x in pa[1:] + pb[1:]),
                        label + ': new pieces are not overlapping yet')
            c.cover('%s: %s' % (label, rel.name))
        s = e.explore(harness).summary()
        s['assumed'] = [
            'ground.segments_relation/segments_intersection: contract of '
            'the relation and the common point of two segments (checked '
            'against exact definitions by ground.* groups)']
        return s
    return group


def position(M):
    """Which side of the other geometry a new event is on."""
    e = Engine('events.position', functions=[
        'CompoundEventsQueue.compute_position', 'CompoundLeftEvent.inside',
        'CompoundLeftEvent.outside',
        'CompoundLeftEvent.is_common_region_boundary',
        'CompoundLeftEvent.is_common_polyline_component'])
    label = 'compute_position'

    def harness(c):
        OK = M.enums.OverlapKind
        ft, gt = c.choose((True, False)), c.choose((True, False))
        a = mk_event(c, M, 'CompoundLeftEvent', 'a', ft)
        b = mk_event(c, M, 'CompoundLeftEvent', 'b', gt)
        b.other_interior_to_left = c.choose((True, False))
        a.overlap_kind = kind = c.choose(list(OK))
        none = c.choose((True, False))
        k, v = c.outcome(M.events_queue.CompoundEventsQueue.compute_position,
                         None if none else b, a)
        if k == 'raise':
            c.prove(False, label + ': no exception', repr(v))
        # just below a: above b; the side of the other geometry there
        if none:
            want = False
        elif ft is gt:
            want = b.other_interior_to_left
        else:
            want = b.interior_to_left
        c.prove(a.other_interior_to_left is want,
                label + ': inside of the other geometry by the event below')
        c.prove(a.inside is (want and kind is OK.NONE)
                and a.outside is (not want and kind is OK.NONE)
                and a.is_common_region_boundary
                is (kind is OK.SAME_ORIENTATION)
                and a.is_common_polyline_component
                is (kind is OK.DIFFERENT_ORIENTATION),
                label + ': kinds of boundary')
        c.prove(b.overlap_kind is OK.NONE and a.overlap_kind is kind,
                label + ': nothing else changes')
        c.cover(label + ' ends')
    return e.explore(harness)


GROUPS = {'events.detect_linear': detect('LinearEventsQueue',
                                         'LinearLeftEvent',
                                         'LinearEventsQueue.'
                                         'detect_intersection'),
          'events.detect_compound': detect('CompoundEventsQueue',
                                           'CompoundLeftEvent',
                                           'CompoundEventsQueue.'
                                           'detect_intersection'),
          'events.position': position,
          'events.register': register, 'events.order': queue_order,
          'events.sweep_order': sweep_order}
