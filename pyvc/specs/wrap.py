"""Contracts of the functions which set up a sweep: who is registered, in
which role, which process judges, what is made of its answer."""
import z3

from ..engine import Engine, SSeq
from ..model import *  # noqa
from .basic import Part, Tag, in_box  # noqa

LINEAR = ('segment', 'multisegment', 'contour')
R = Relation
RAW = {'open': (R.DISJOINT, R.TOUCH, R.CROSS, R.OVERLAP, R.COMPOSITE,
                R.EQUAL, R.COMPONENT),
       'linear_compound': (R.DISJOINT, R.TOUCH, R.CROSS, R.COMPONENT,
                           R.ENCLOSED, R.WITHIN),
       'compound': (R.DISJOINT, R.TOUCH, R.OVERLAP, R.COVER, R.ENCLOSES,
                    R.COMPOSITE, R.EQUAL, R.COMPONENT, R.ENCLOSED,
                    R.WITHIN)}
RAW['closed'] = RAW['open']
# what an areal relation becomes when the goal gains parts which have
# nothing in common with the test (proved in lemmas.dropped)
DROPPED = {R.EQUAL: R.COMPONENT, R.COVER: R.OVERLAP, R.ENCLOSES: R.OVERLAP,
           R.COMPOSITE: R.OVERLAP}
DIRECT = [('multisegment', 'multisegment'), ('contour', 'multisegment'),
          ('contour', 'contour')]
DIRECT += [(g, t) for g in ('region', 'multiregion', 'multipolygon')
           for t in LINEAR] + [('polygon', 'segment'),
                               ('polygon', 'multisegment')]
DIRECT += [('region', 'region'), ('multiregion', 'region'),
           ('multiregion', 'multiregion'), ('multipolygon', 'region'),
           ('multipolygon', 'multiregion'), ('multipolygon', 'polygon'),
           ('multipolygon', 'multipolygon')]


def apart(p, q):
    return z3.Or(p.min_x.e > q.max_x.e, q.min_x.e > p.max_x.e,
                 p.min_y.e > q.max_y.e, q.min_y.e > p.max_y.e)


def a_box(c, name, glob=False):
    if glob:
        t = [SReal(c.glob(name + k, z3.RealSort()))
             for k in ('_min_x', '_max_x', '_min_y', '_max_y')]
    else:
        t = [c.real(name + k) for k in ('_min_x', '_max_x', '_min_y',
                                        '_max_y')]
    c.assume(t[0].e <= t[1].e)
    c.assume(t[2].e <= t[3].e)
    return G.Box(*t)


def inside(c, p, q):
    """The first box lies in the second one."""
    c.assume(z3.And(p.min_x.e >= q.min_x.e, p.max_x.e <= q.max_x.e,
                    p.min_y.e >= q.min_y.e, p.max_y.e <= q.max_y.e))


class Boxes(VContext):
    """Bounding boxes by contract."""

    def __init__(self, c, label):
        self.c, self.label, self.known = c, label, []

    def give(self, what, box):
        self.known.append((what, box))

    def find(self, x):
        for what, box in self.known:
            if x is what:
                return box
        return getattr(x, 'data', None)

    def _box(self, x):
        b = self.find(x)
        if b is None:
            self.c.prove(False, self.label + ': the box of an argument or '
                         'of a part of it is taken', repr(x))
        return b
    contour_box = polygon_box = segment_box = contours_box = _box
    polygons_box = _box

    def segments_box(self, xs):
        if isinstance(xs, (list, tuple)) and len(xs) == 1:
            return self._box(xs[0])
        return self._box(xs)


class Ledger:
    """Ghost of one events queue: what was registered."""

    def __init__(self, kind, context):
        c = E.ctl()
        n = c.note['wrap']
        c.prove(context is n.ctx, n.label + ': the context is handed down')
        self.kind, self.test, self.part = kind, 0, 0
        n.queues.append(self)

    def __pyvc_describe__(self, env):
        return ('queue', self.kind, self.test, self.part)

    def register(self, endpoints, *, from_test):
        c = E.ctl()
        n = c.note['wrap']
        for x in endpoints:
            n.enter(c, self, x, from_test)


class Setup:
    """Goal with parts, test, and the ghost of the goal's parts."""

    def __init__(self, c, label, gk, tk):
        self.c, self.label = c, label
        self.gk, self.tk = gk, tk
        self.ctx = Boxes(c, label)
        self.queues, self.raw = [], None
        self.cur, self.cur_reg, self.dropped = None, True, False
        self.any_reg, self.kpart = False, None
        c.ghosts.append(self)
        self.test_box = a_box(c, 't', True)
        self.goal_box = a_box(c, 'g', True)
        self.test = self._whole(c, tk, 't', self.test_box, False)
        self.goal = self._whole(c, gk, 'g', self.goal_box, True)
        self.linear = tk in LINEAR

    # ghost of the loop over the goal's parts
    def start(self):
        if not self.any_reg:
            self.dropped = False

    def before(self):
        if self.cur is not None and not self.cur_reg:
            self.dropped = True
        self.cur = None

    def step(self, p, v):
        self.cur, self.cur_reg = v, False

    def __pyvc_describe__(self, env):
        return ('setup', self.dropped, self.any_reg, self.cur_reg,
                self.cur is None, env.describe(self.queues),
                env.describe(self.raw))

    def _whole(self, c, kind, name, box, goal):
        ctx = self.ctx
        if goal:
            self.n = None
        if kind == 'segment':
            x = G.Segment(sym_point(c, name + 'a'), sym_point(c, name + 'b'))
            ctx.give(x, box)
            return x
        if kind in ('contour', 'region'):
            x = Part(name)
            x.data = box
            return x
        if kind == 'polygon':
            border = Part(name + '_border')
            border.data = box
            n = c.glob('n_' + name, z3.IntSort())
            c.assume(n >= 0)
            hs = SSeq(name + '_holes', n, lambda p: self._part('hole'))
            x = G.Polygon(border, hs)
            ctx.give(x, box)
            return x
        n = c.glob('n_' + name, z3.IntSort())
        c.assume(n >= (0 if kind == 'multiregion' and goal
                       and self.tk != 'multiregion' else 1))
        seq = SSeq(name, n, lambda p: self._part('part'), windowed=False)
        ctx.give(seq, box)
        if goal:
            seq.ghost = self
            self.n = n
            self.seq = seq
            seq.vocab = self._vocab
            if c.branch(n > 0):
                self.k = k = c.glob('K', z3.IntSort())
                c.assume(z3.And(k >= 0, k < n))
                seq.marks = (k,)
                self.kpart = p = Part('K')
                p.data = a_box(c, 'K', True)
                inside(c, p.data, box)
                seq.entries.append((k, p))
        if kind == 'multiregion':
            return seq
        x = (G.Multisegment if kind == 'multisegment'
             else G.Multipolygon)(seq)
        ctx.give(x, box)
        return x

    def _part(self, name):
        p = Part(name)
        p.data = a_box(self.c, name)
        return p

    def _vocab(self, terms, p):
        if self.kpart is None:
            return []
        top = self.kpart.data.max_x.e
        return [t >= top for t in terms if t.sort() == z3.RealSort()]

    # registration
    def enter(self, c, queue, x, from_test):
        label = self.label
        if isinstance(x, tuple) and self.tk == 'segment':
            ends = self.test.start, self.test.end
            ok = len(x) == 2 and (x[0] is ends[0] and x[1] is ends[1]
                                  or x[0] is ends[1] and x[1] is ends[0])
            c.prove(ok, label + ': the segment is registered', x)
            x = Tag(self.test, None)
        if not isinstance(x, Tag):
            raise Undecided('something else is registered: %r' % (x,))
        part = x.part
        if isinstance(part, G.Multisegment) and isinstance(
                part.segments, list):
            c.prove(len(part.segments) == 1, label + ': one segment')
            part = part.segments[0]
        if part is self.test:
            c.prove(from_test is True, label + ': the test is registered '
                    'as test')
            if not self.linear or self.tk == 'contour' and queue.kind == \
                    'compound' and self.gk == 'contour':
                c.prove(x.cw is False, label + ': the interior of the test '
                        'is on the left')
            queue.test += 1
            return
        c.prove(from_test is False, label + ': the goal is registered as '
                'goal')
        if queue.kind == 'compound':
            c.prove(x.cw is False, label + ': the interior of the goal is '
                    'on the left')
        if part is self.goal:
            queue.part += 1
            self.any_reg = True
            return
        c.prove(part is self.cur, label + ': the goal parts are registered '
                'one by one', repr(part))
        c.prove(not self.cur_reg, label + ': a goal part is registered once')
        self.cur_reg = self.any_reg = True
        if part is self.kpart:
            queue.part += 1

    # the process
    def process(self, c, kind, queue, stop_x):
        label = self.label
        want = (('open', 'closed') if self.gk in LINEAR else
                ('linear_compound',) if self.linear else ('compound',))
        c.prove(kind in want, label + ': the process for these kinds', kind)
        c.prove(isinstance(queue, Ledger) and queue.kind == (
            'linear' if kind == 'open' else 'compound'),
            label + ': the queue the process takes')
        c.prove(self.raw is None, label + ': one sweep')
        if self.cur is not None:
            self.before()
        c.prove(queue.test == 1, label + ': the test is registered once')
        if self.n is None:
            c.prove(queue.part == 1, label + ': the goal is registered once')
            top = self.goal_box.max_x.e
        else:
            top = self.kpart.data.max_x.e
            c.prove(queue.part == 1 or queue.part == 0 and apart(
                self.kpart.data, self.test_box),
                label + ': every goal part not apart from the test is '
                'registered once')
        sx = E.lift(stop_x)
        if queue.part:
            c.prove(z3.Or(sx >= self.test_box.max_x.e, sx >= top),
                    label + ': the sweep does not end too early')
        self.registered = queue.part
        self.raw = c.choose(RAW[kind])
        return self.raw


def tagged(clockwise):
    def give(part, context=None, clockwise=clockwise):
        c = E.ctl()
        n = c.note['wrap']
        if context is not None:
            c.prove(context is n.ctx, n.label + ': the context is handed '
                    'down')
        return [Tag(part, clockwise)]
    return give


def install(M):
    M.stub('events_queue', 'LinearEventsQueue',
           lambda context: Ledger('linear', context))
    M.stub('events_queue', 'CompoundEventsQueue',
           lambda context: Ledger('compound', context))
    for kind, name in (('open', 'process_open_linear_queue'),
                       ('closed', 'process_closed_linear_queue'),
                       ('linear_compound', 'process_linear_compound_queue'),
                       ('compound', 'process_compound_queue')):
        def run(events_queue, stop_x, kind=kind):
            c = E.ctl()
            return c.note['wrap'].process(c, kind, events_queue, stop_x)
        M.stub('processing', name, run)

    def plain(x):
        return [Tag(x, None)]
    M.stub('contour', 'to_edges_endpoints', plain)
    M.stub('multisegment', 'to_segments_endpoints', plain)
    for m, f in (('contour', 'to_oriented_edges_endpoints'),
                 ('multiregion', 'to_oriented_edges_endpoints'),
                 ('polygon', 'to_oriented_edges_endpoints'),
                 ('multipolygon', 'to_oriented_segments')):
        M.stub(m, f, tagged(False))

    def disjoint(left, right):
        return E.ctl().branch(apart(left, right))
    M.stub('box', 'disjoint_with', disjoint)

    def equal(left, right, context):
        c = E.ctl()
        n = c.note['wrap']
        c.prove(context is n.ctx, n.label + ': the context is handed down')
        c.prove(left is n.goal and right is n.test
                or left is n.test and right is n.goal,
                n.label + ': the goal and the test are compared')
        n.equal = c.branch(c.glob('equal', z3.BoolSort()))
        return n.equal
    M.stub('contour', 'equal', equal)


def group(gk, tk):
    label = '%s.relate_%s' % (gk, tk)

    def run(M):
        e = Engine(label, functions=[label])
        install(M)
        fn = getattr(getattr(M, gk), 'relate_' + tk)

        def harness(c):
            n = Setup(c, label, gk, tk)
            c.note['wrap'] = n
            n.equal = False
            kind, v = c.outcome(fn, n.goal, n.test, n.ctx)
            if kind == 'raise':
                c.prove(False, label + ': no exception', repr(v))
            c.prove(isinstance(v, Relation), label + ': returns a relation',
                    repr(v))
            c.cover('%s returns %s' % (label, v.name))
            empty = n.n is not None and not c.branch(n.n > 0)
            if n.raw is None:
                if n.equal:
                    c.prove(v is (R.COMPONENT if tk == 'contour'
                                  and gk != 'contour' else R.EQUAL),
                            label + ': the relation of the same contour')
                    return
                c.prove(v is R.DISJOINT, label + ': without a sweep only '
                        'DISJOINT', v.name)
                if not empty:
                    c.prove(apart(n.kpart.data if n.n is not None
                                  else n.goal_box, n.test_box),
                            label + ': DISJOINT only if apart')
                return
            c.prove(not empty, label + ': no sweep of nothing')
            want = R(n.raw)
            more = want if n.linear else DROPPED.get(want, want)
            if v is want and (more is want or n.registered):
                c.prove(True, label + ': the answer of the sweep is '
                        'returned')
            elif v is want:
                c.prove(False, label + ': parts left out keep an area from '
                        'being covered', v.name)
            else:
                c.prove(v is more, label + ': the answer of the sweep is '
                        'returned', (v.name, want.name))
                c.prove(n.dropped, label + ': only parts left out change '
                        'the answer of the sweep')
        return e.explore(harness)
    return run


GROUPS = {'wrap.%s.%s' % p: group(*p) for p in DIRECT}
