"""Contracts of what happens at a point of the sweep.

complete_events_relations: the events at one point are an arbitrary long
sequence; two arbitrary positions i < j of it are looked at.
"""
import z3

from ..engine import Engine, ISeq, SInt, SReal, SSeq
from ..model import *  # noqa


class Place:
    """A point known by what it is to an event at the common point.

    at: the common point, far: the other end of the piece, whole: the end of
    the whole segment on the side of the common point."""

    def __init__(self, maker, kind, left):
        self.maker, self.kind, self.left = maker, kind, left
        self.through = None

    def __eq__(self, o):
        if not isinstance(o, Place):
            return NotImplemented
        if self is o:
            return True
        a, b = self, o
        if a.kind > b.kind:
            a, b = b, a
        if (a.kind, b.kind) == ('at', 'at'):
            return True
        if (a.kind, b.kind) == ('at', 'far'):
            return False
        if (a.kind, b.kind) == ('at', 'whole'):
            if b.through is None:
                b.through = E.ctl().choose((True, False))
                self.maker.places.append(b)
            return not b.through
        if (a.kind, b.kind) == ('far', 'far'):
            if a.left is not b.left:
                return False        # on different sides of the point
            return self.maker.equal(a, b)
        raise Undecided('comparison of ends of whole segments')

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def _no(self, *a):
        raise Undecided('coordinates of an opaque point')
    __lt__ = __le__ = __gt__ = __ge__ = _no
    x = y = property(_no)

    def __pyvc_describe__(self, env):
        return (self.kind, self.left, self.through)


class AnyRelation:
    """A relation known by comparisons only (the code is checked not to
    look at its identity)."""

    def __init__(self):
        self.lo, self.hi = 0, 3

    def _below(self, k):
        """Is it less than k?"""
        if self.hi < k:
            return True
        if self.lo >= k:
            return False
        if E.ctl().choose((True, False)):
            self.hi = k - 1
            return True
        self.lo = k
        return False

    def __lt__(self, o):
        return self is not o and self._below(self._int(o))

    def __ge__(self, o):
        return not self < o

    def __le__(self, o):
        return self is o or self._below(self._int(o) + 1)

    def __gt__(self, o):
        return not self <= o

    def __eq__(self, o):
        return self is o or (self <= o and self >= o)

    __hash__ = None

    @staticmethod
    def _int(o):
        if not isinstance(o, int):
            raise Undecided('relations of two events are compared')
        return int(o)


def identities(f):
    """What the code looks at the identity of."""
    import ast
    import inspect
    import textwrap
    t = ast.parse(textwrap.dedent(inspect.getsource(f)))
    for x in ast.walk(t):
        if isinstance(x, ast.Compare) and any(isinstance(
                o, (ast.Is, ast.IsNot)) for o in x.ops):
            for y in [x.left] + x.comparators:
                yield getattr(y, 'attr', type(y).__name__)


def seen_through(M):
    """Nothing is done to relations that AnyRelation does not see."""
    if not hasattr(M, 'seen_through'):
        f = M.events_queue.complete_events_relations
        M.seen_through = not (f.__closure__ or set(f.__code__.co_names) - {
            'enumerate', 'is_left', 'left', 'range', 'len', 'from_test',
            'from_goal', 'start', 'end', 'original_start', 'original_end',
            'SegmentsRelation', 'OVERLAP', 'TOUCH', 'CROSS', 'DISJOINT',
            'relation', 'max', 'zip', 'right'}
            or set(identities(f)) - {'from_test', 'from_goal', 'is_left'})
    return M.seen_through


class Maker:
    """Makes events which start at one point."""

    def __init__(self, c, M, cls, label):
        self.c, self.M, self.label = c, M, label
        self.memo, self.kept = {}, []
        self.places, self.fixed = [], []
        self.target = None
        self.any = (AnyRelation if seen_through(M) else
                    lambda: c.choose(list(M.enums.SegmentsRelation)))
        K = getattr(M.event, cls)
        maker = self

        class Watched(K):
            """The relation is arbitrary whenever it is read, but for the
            event looked at; it is checked whenever it is set."""
            __slots__ = '_rel',

            @property
            def relation(self):
                if self is not maker.target:
                    self._rel = maker.any()
                elif maker.reached:
                    # what it has to be at least is kept in mind only
                    self._rel = c.choose([
                        r for r in M.enums.SegmentsRelation
                        if r >= maker.want])
                else:
                    self._rel = c.choose(list(M.enums.SegmentsRelation))
                return self._rel

            @relation.setter
            def relation(self, r):
                if not hasattr(self, '_rel'):
                    self._rel = None        # from the constructor
                    return
                maker.changed(self, r)
                self._rel = r
                if self is maker.target:
                    maker.reached = r >= maker.want
            def __pyvc_describe__(self, env):
                if id(self) in env.ids:
                    return ('ref', env.ids[id(self)])
                env.ids[id(self)] = len(env.ids)
                return (self.from_test, env.describe((self._start, self._original_start,
                                      self.right)))
        Watched.__name__ = K.__name__
        Watched.__module__ = K.__module__
        self.K = Watched

    def equal(self, a, b):
        k = frozenset((id(a), id(b)))
        if k not in self.memo:
            self.memo[k] = (a, b, self.c.choose((True, False)))
        return self.memo[k][2]

    def at_head(self):
        self.memo = {k: v for k, v in self.memo.items()
                     if any(v[0] is x for x in self.kept)
                     and any(v[1] is x for x in self.kept)}
        for x in self.places:
            if not any(x is y for y in self.fixed):
                x.through = None

    def __pyvc_describe__(self, env):
        return ('maker', self.reached, tuple(v[2] for v in self.memo.values()))

    def make(self, test=None, left=None):
        """Any event that starts at the point: its left or its right end."""
        c, E_ = self.c, self.M.event
        if left is None:
            left = c.choose((True, False))
        if test is None:
            test = c.choose((True, False))
        rel = self.M.enums.SegmentsRelation.DISJOINT
        at, far = Place(self, 'at', left), Place(self, 'far', left)
        whole = Place(self, 'whole', left)
        args = ((at, None, whole, test, rel) if left
                else (far, None, far, test, rel))
        if issubclass(self.K, E_.CompoundLeftEvent):
            args += True,
        ev = self.K(*args)
        if left:
            ev.right = E_.RightEvent(far, ev, far)
            return ev
        ev.right = E_.RightEvent(at, ev, whole)
        return ev.right

    def pair(self, a, b):
        """How the segments of events at one point are related there."""
        SR = self.M.enums.SegmentsRelation
        if a.from_test is b.from_test:
            return SR.DISJOINT
        if a.is_left is b.is_left and a.end == b.end:
            return SR.OVERLAP
        return (SR.TOUCH if (a.start == a.original_start
                             or b.start == b.original_start) else SR.CROSS)

    def changed(self, ev, new):
        c, label = self.c, self.label
        known = [v for _, v in self.seq.entries]
        me = [v for v in known if left_of(v) is ev]
        c.prove(len(me) > 0, label + ': changes events at the point only')
        SR = self.M.enums.SegmentsRelation
        old = ev._rel
        c.prove(new is SR.OVERLAP or old is not None and new >= old,
                label + ': a relation never gets weaker')
        c.prove(new is old or any(self.pair(me[0], v) is new for v in known
                                  if v is not me[0]),
                label + ': a relation is one of the segment at the point',
                '%r -> %r' % (old, new))


def left_of(ev):
    return ev if ev.is_left else ev.left


def complete(cls, t, which, sides):
    label = 'complete_events_relations'

    def group(M):
        e = Engine('sweep.complete', functions=[label])
        e.merge_inner = True

        def harness(c):
            n = c.glob('n_events', z3.IntSort())
            i, j = c.glob('i', z3.IntSort()), c.glob('j', z3.IntSort())
            c.assume(z3.And(0 <= i, i < j, j < n))
            maker = Maker(c, M, cls, label)
            marked = [maker.make(t, sides[0]), maker.make(not t, sides[1])]
            want = maker.want = maker.pair(*marked)
            maker.reached = want is M.enums.SegmentsRelation.DISJOINT
            maker.fixed = list(maker.places)
            maker.kept = [x for v in maker.memo.values() for x in v[:2]]
            target = marked[which]
            maker.target = left_of(target)
            c.ghosts.append(maker)
            ss = maker.seq = SSeq('events', n, lambda p: maker.make(),
                                  marks=(i, j), windowed=False)
            ss.lean = True
            ss.entries = [(i, marked[0]), (j, marked[1])]

            def reached():
                return maker.reached
            kind, v = c.outcome(consume, c, M, ss, target,
                                reached, label)
            if kind == 'raise':
                c.prove(False, label + ': no exception', repr(v))
            c.prove(v.e == n, label + ': yields every event once', repr(v))
            c.cover(label + ' %s' % want.name)
        return e.explore(harness)
    return group


def consume(c, M, ss, target, reached, label):
    count = E.Counter()
    for ev in M.events_queue.complete_events_relations(ss):
        c.prove(z3.And(count.e >= 0, count.e < ss.n),
                label + ': yields not more events than there are')
        x = ss.at(count.e)
        c.prove(ev is left_of(x), label + ': yields the left ends in order')
        if x is target:
            c.prove(reached(), label + ': what is yielded knows '
                    'its relations to all others')
        count.e = z3.simplify(count.e + 1)
    return count


GROUPS = {}
for _t in (True, False):
    for _w in (0, 1):
        for _a in (True, False):
            for _b in (True, False):
                GROUPS['sweep.complete.%s.%s.%s%s' % (
                    'test' if _t else 'goal', 'late' if _w else 'early',
                    'RL'[_a], 'RL'[_b])] = complete(
                        'LinearLeftEvent', _t, _w, (_a, _b))


# ------------------------------------------------------------ the sweep loop

class Group:
    """Stands in a list for the events popped so far at the current point."""
    __slots__ = ()

    def __pyvc_describe__(self, env):
        return 'group'


class Swept:
    """What complete_events_relations yields for one group."""

    def __init__(self, number):
        self.number = number


def popped(x):
    return isinstance(x, Group) or hasattr(x, 'is_left')


def lazy(K):
    """Events whose flags are chosen when they are read."""

    def flag(name):
        def read(self):
            v = self._flags.get(name)
            if v is None:
                v = self._flags[name] = E.ctl().choose((True, False))
            return v

        def write(self, v):
            self._flags[name] = v
        return property(read, write)

    class Lazy(K):
        def __init__(self, *args):
            self._flags = {}
            K.__init__(self, *args)

    for name in ('from_test', 'interior_to_left', 'other_interior_to_left'):
        setattr(Lazy, name, flag(name))
    Lazy._from_test = flag('from_test')
    Lazy.__name__, Lazy.__module__ = K.__name__, K.__module__
    return Lazy


class Plane:
    """Specification state of a sweep: the queue, the line, the groups."""

    def __init__(self, c, M, name, label):
        self.c, self.M, self.label = c, M, label
        self.compound = name == 'CompoundEventsQueue'
        self.entry, self.mark = tuple(c.trace), c.counter
        self.stop = SReal(c.glob('stop_x', z3.RealSort()))
        self.cur = None             # the point of the events popped last
        self.next = None            # the event to come, once looked at
        self.ended = False
        self.group = []             # what the current group consists of
        self.pending = None         # a group to be completed
        self.turned = False         # crossing angles were looked for
        self.completed = self.given = 0
        self.event = None           # the event of this iteration
        self.K = lazy(getattr(M.event, 'CompoundLeftEvent' if self.compound
                              else 'LinearLeftEvent'))
        c.ghosts.append(self)

    def __pyvc_describe__(self, env):
        return ('plane', self.cur and env.describe(self.cur),
                self.next is not None, len(self.group))

    # the priority queue (assumed: pops in the order of the keys)
    def __bool__(self):
        c = self.c
        if self.ended:
            return False
        if self.next is None:
            self.settle()
            c.loop_head(('sweep', self.entry), self.mark, (), None,
                        self.facts)
            if not c.choose((True, False)):
                self.ended = True
                return False
            self.next = self.make()
        return True

    def facts(self, terms):
        res = []
        if self.cur is not None:
            x, y, s = self.cur.x.e, self.cur.y.e, self.stop.e
            res += [x <= s]
            for t in terms:
                if t.sort() == z3.RealSort():
                    res += [t == x, t == y]
        return res

    def make(self, start=None, left=None):
        c, E_ = self.c, self.M.event
        if start is None:
            if self.cur is not None and c.choose((True, False)):
                start = G.Point(self.cur.x, self.cur.y)
            else:
                start = fresh_point(c, 'start')
                if self.cur is not None:
                    c.assume(less(self.cur, start))
        left = c.choose((True, False)) if left is None else left
        other = fresh_point(c, 'other')
        args = (start if left else other, None, start, None,
                self.M.enums.SegmentsRelation.DISJOINT)
        ev = self.K(*args, None) if self.compound else self.K(*args)
        ev.right = E_.RightEvent(other if left else start, ev, other)
        return ev if left else ev.right

    def peek(self):
        c = self.c
        c.prove(bool(self), self.label + ': an empty queue is not peeked at')
        return self.next

    def pop(self):
        c, label = self.c, self.label
        c.prove(bool(self), label + ': an empty queue is not popped')
        c.prove(self.event is None, label + ': an event at a time')
        ev, self.next = self.next, None
        c.prove(ev.start.x.e <= self.stop.e,
                label + ': events past the stop stay in the queue')
        self.event = ev
        if self.cur is not None and c.branch(same(ev.start, self.cur)):
            self.group.append(ev)
        else:
            self.pending, self.turned = self.group, False
            self.group, self.cur = [ev], ev.start
        self.near, self.tested, self.line = {}, [], []
        self.inside = not ev.is_left and c.choose((True, False))
        return ev

    def push(self, x):
        raise Undecided('the sweep pushes events itself')

    # the sweep line (assumed: ordered by its key)
    def subject(self):
        return self.event if self.event.is_left else self.event.left

    def neighbour(self, ev, above):
        c = self.c
        if ev is self.subject() and not self.inside:
            return None             # not in the sweep line
        if ev is not self.subject() and not any(
                ev is x for x in self.near.values()):
            raise Undecided('neighbours of an unknown event')
        k = id(ev), above
        if k not in self.near:
            self.near[k] = (self.make(left=True)
                            if c.choose((True, False)) else None)
            if self.near[k] is not None and self.compound:
                self.near[k].other_interior_to_left = None
        return self.near[k]

    def add(self, ev):
        c, label = self.c, self.label
        c.prove(self.event is not None and self.event is ev and ev.is_left
                and not self.inside, label + ': a left event is put on the '
                'sweep line once')
        self.inside = True
        self.line.append('add')

    def remove(self, ev):
        c, label = self.c, self.label
        c.prove(self.event is not None and not self.event.is_left
                and ev is self.subject() and self.inside, label + ': the '
                'left event of a right one leaves the sweep line')
        self.before = [self.neighbour(ev, True), self.neighbour(ev, False)]
        self.inside = False
        self.line.append('remove')

    def contains(self, ev):
        if self.event is None or ev is not self.subject():
            raise Undecided('membership of an unknown event')
        return self.inside

    def detect(self, below, ev):
        c = self.c
        test = self.compound and c.choose((True, False))
        if test and below.from_test is ev.from_test:
            raise Stop      # segments of one geometry do not overlap
        self.tested.append((below, ev, test))
        return test if self.compound else None

    # groups
    def angles(self, events):
        c = self.c
        group = self.group if self.ending() else self.pending
        c.prove(self.alike(events, group or []), self.label + ': crossing '
                'angles of all the events at a point')
        self.turned = True

    def ending(self):
        """The last group is being completed."""
        return self.pending is None and self.event is None

    def alike(self, events, group):
        return (type(events) is list and len(events) == len(group)
                and all(x is y or isinstance(x, Group)
                        and isinstance(y, Group)
                        for x, y in zip(events, group)))

    def complete(self, events):
        c, label = self.c, self.label
        if type(events) is list and not events and not (
                self.pending or self.group and self.ending()):
            return
        group = self.group if self.ending() else self.pending
        c.prove(self.alike(events, group or []), label + ': relations are '
                'completed for all the events at a point, once')
        if not self.compound:
            c.prove(self.turned, label + ': crossing angles are looked for '
                    'before')
        if self.ending():
            c.prove(self.ended or c.branch(self.next is not None
                    and self.next.start.x.e > self.stop.e),
                    label + ': ends with the queue or past the stop only')
            self.group = []
        self.pending, self.turned = None, False
        self.completed += 1
        yield Swept(self.completed)

    def at_head(self):
        pass

    def settle(self):
        """The end of an iteration."""
        c, label = self.c, self.label
        if self.event is None:
            return
        c.prove(not self.pending, label + ': the group at the point before '
                'is completed')
        self.pending = None
        c.prove(self.completed == self.given, label + ': what is completed '
                'is yielded')
        self.completed = self.given = 0
        ev, want = self.subject(), []
        if self.event.is_left:
            c.prove(self.line == ['add'], label + ': a left event is put on '
                    'the sweep line')
            up = self.neighbour(ev, True)
            down = self.neighbour(ev, False)
            want = [(ev, up)] * (up is not None)
            want += [(down, ev)] * (down is not None)
            if self.compound:
                self.positions(ev, up, down)
        elif self.line:
            up, down = self.before
            want = [(down, up)] * (up is not None and down is not None)
            c.prove(self.line == ['remove'], label + ': leaves the sweep '
                    'line once')
        else:
            c.prove(not self.inside, label + ': an event that ends leaves '
                    'the sweep line')
        for x, y in want:
            c.prove(any(a is x and b is y for a, b, _ in self.tested),
                    label + ': segments that become neighbours are tested '
                    'for common points')
        c.prove(len(self.tested) == len(want), label + ': neighbours are '
                'tested once')
        self.event = None
        self.summarise()

    def positions(self, ev, up, down):
        c, label = self.c, self.label

        def over(a, b):
            return any(x is a and y is b and t for x, y, t in self.tested)

        def side(below, x):
            return (below.other_interior_to_left
                    if below.from_test is x.from_test
                    else below.interior_to_left)
        if up is not None and over(ev, up):
            c.prove(up.other_interior_to_left is side(ev, up),
                    label + ': the position of an overlapping event above is '
                    'found anew')
        else:
            want = False if down is None else side(down, ev)
            if not (down is not None and over(down, ev)
                    and down.from_test is ev.from_test):
                c.prove(ev.other_interior_to_left is want, label + ': the '
                        'position of a new event is found from the one '
                        'below')

    def summarise(self):
        """The list of the group gets one form."""
        import sys
        f = sys._getframe(1)
        while f is not None and f.f_code is not E.CALL_CODE:
            if not f.f_code.co_filename.startswith(E.HERE):
                for v in f.f_locals.values():
                    if (type(v) is list and v and all(map(popped, v))
                            and self.alike(v, self.group)):
                        v[:] = [Group()]
            f = f.f_back
        self.group = [Group()]


def loop(name):
    def group(M):
        label = name + '.sweep'
        e = Engine('sweep.loop.' + name[:-11].lower(), functions=[label])
        now = {}

        class Line:
            def __init__(self, context):
                now['c'].prove(isinstance(context, VContext), label
                               + ': passes the context on')

            def __contains__(self, ev):
                return now['plane'].contains(ev)

            def add(self, ev):
                now['plane'].add(ev)

            def remove(self, ev):
                now['plane'].remove(ev)

            def above(self, ev):
                return now['plane'].neighbour(ev, True)

            def below(self, ev):
                return now['plane'].neighbour(ev, False)

            def __pyvc_describe__(self, env):
                return 'line'

        from .queue import stub_queue
        stub_queue(M, lambda key=None: now['plane'])
        M.stub('sweep_line', 'SweepLine', Line)
        M.stub('events_queue', 'complete_events_relations',
               lambda events: now['plane'].complete(events))

        class Q(getattr(M.events_queue, name)):
            __slots__ = ()

            def detect_intersection(self, below_event, event):
                return now['plane'].detect(below_event, event)

            def detect_crossing_angles(self, same_start_events):
                now['plane'].angles(same_start_events)

            def __pyvc_describe__(self, env):
                return 'queue'

        def harness(c):
            now['c'] = c
            plane = now['plane'] = Plane(c, M, name, label)
            kind, q = c.outcome(Q, VContext())
            if kind == 'raise':
                c.prove(False, label + ': the queue is made', repr(q))
            kind, v = c.outcome(consume_sweep, c, plane, q, label)
            if kind == 'raise':
                c.prove(False, label + ': no exception', repr(v))
            plane.settle() if plane.event is not None else None
            c.prove(not plane.pending and not plane.group,
                    label + ': the last group is completed')
            c.prove(plane.ended or c.branch(
                plane.next is not None
                and plane.next.start.x.e > plane.stop.e),
                label + ': ends with the queue or past the stop only')
            c.prove(plane.given == plane.completed,
                    label + ': what is completed is yielded')
            c.cover(label + (' ends' if plane.ended else ' stops'))
        s = e.explore(harness).summary()
        s['assumed'] = [
            'prioq.PriorityQueue pops the events in the order of the keys, '
            'dendroid.red_black keeps the events in the order of the keys '
            '(the orders are proved: events.order, events.sweep_order)']
        return s
    return group


def consume_sweep(c, plane, q, label):
    for ev in q.sweep(plane.stop):
        plane.given += 1
        c.prove(isinstance(ev, Swept) and ev.number == plane.given,
                label + ': yields what is completed, in order')


for _n in ('LinearEventsQueue', 'CompoundEventsQueue'):
    GROUPS['sweep.loop.' + _n[:-11].lower()] = loop(_n)
