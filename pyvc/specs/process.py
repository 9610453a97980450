"""Contracts of the four functions that judge a sweep.

The events of a sweep are an arbitrary long sequence of arbitrary events.
What they say as a whole is a set of flags (which kinds of events occur); the
relation is a formula over the flags.  An answer given before the sweep ends
has to be right for all the events that may still come."""
import itertools

import z3

from ..engine import Engine, ISeq
from ..model import *  # noqa

R = Relation


class Stream:
    """A queue whose sweep yields arbitrary events (assumed contract)."""

    def __init__(self, c, compound, label):
        self.c, self.compound, self.label = c, compound, label
        self.seen = frozenset()
        self.swept, self.finished, self.left = 0, False, None
        self.stop_x = c.real('stop_x')
        self.cur = None
        c.ghosts.append(self)

    def __pyvc_describe__(self, env):
        return ('stream', tuple(sorted(self.seen)), self.swept, self.left)

    # the interface of the queue
    def sweep(self, stop_x):
        c = self.c
        c.prove(stop_x is self.stop_x, self.label + ': sweeps as far as '
                'asked to', repr(stop_x))
        c.prove(self.swept == 0, self.label + ': sweeps once')
        self.swept = 1
        n = c.glob('n_events', z3.IntSort())
        c.assume(n >= 0)
        seq = ISeq('events', n, lambda p: self.event(), ghost=self)
        return self.run(seq)

    def run(self, seq):
        it = iter(seq)
        stream = self

        class Run:
            def __iter__(self):
                return self

            def __next__(self):
                try:
                    return next(it)
                except StopIteration:
                    stream.finished = True
                    raise

            def __pyvc_describe__(self, env):
                return env.describe(it)
        return Run()

    def step(self, p, v):
        pass

    def _rest(self):
        if not self.finished:
            raise Undecided('the queue is looked at before the sweep ends')
        if self.left is None:
            self.left = self.c.choose(('none', 'test', 'goal'))
        return self.left

    def __bool__(self):
        return self._rest() != 'none'

    def __len__(self):
        raise Undecided('size of the queue')

    def peek(self):
        c = self.c
        who = self._rest()
        c.prove(who != 'none', self.label + ': an empty queue is not '
                'peeked at')
        ev = self.make(who == 'test', self.SR.DISJOINT, self.OK.NONE, False)
        return ev if c.choose((True, False)) else ev.right

    # events
    def make(self, from_test, relation, kind, other):
        a, b = fresh_point(self.c, 'a'), fresh_point(self.c, 'b')
        if not self.compound:
            ev = self.M.event.LinearLeftEvent(a, None, a, from_test, relation)
        else:
            ev = self.M.event.CompoundLeftEvent(a, None, a, from_test,
                                                relation, True)
            ev.overlap_kind, ev.other_interior_to_left = kind, other
        ev.right = self.M.event.RightEvent(b, ev, b)
        return ev

    def event(self):
        c, SR, OK = self.c, self.SR, self.OK
        from_test = c.choose((True, False))
        who = 'test' if from_test else 'goal'
        kinds = [(r, OK.NONE, o) for r in (SR.DISJOINT, SR.TOUCH, SR.CROSS)
                 for o in (False, True)]
        kinds += [(SR.OVERLAP, k, o)
                  for k in (OK.SAME_ORIENTATION, OK.DIFFERENT_ORIENTATION)
                  for o in (False, True)]
        if not self.compound:
            kinds = [(r, OK.NONE, False) for r in (SR.DISJOINT, SR.TOUCH,
                                                   SR.CROSS, SR.OVERLAP)]
        r, k, o = c.choose(kinds)
        new = {r.name}
        if r is SR.OVERLAP:
            new.add(who + ' overlaps')
            if self.compound:
                new.add(who + (' same' if k is OK.SAME_ORIENTATION
                               else ' different'))
        else:
            new.add(who + ' apart')
            if self.compound:
                new.add(who + (' inside' if o else ' outside'))
        if r is not SR.DISJOINT:
            new.add('meet')
        self.seen |= new & self.keep
        return self.make(from_test, r, k, o)


FLAGS = ['TOUCH', 'CROSS', 'OVERLAP', 'meet', 'left test', 'left goal'] + [
    w + k for w in ('test', 'goal')
    for k in (' overlaps', ' apart', ' same', ' different', ' inside',
              ' outside')]


def model(compound):
    """Flags and the facts on flags of all sweeps (assumed)."""
    f = {k: z3.Bool(k) for k in FLAGS}
    Or, N, imp = z3.Or, z3.Not, z3.Implies
    ax = []
    for w in ('test', 'goal'):
        if compound:
            ax += [f[w + ' overlaps'] == Or(f[w + ' same'],
                                            f[w + ' different']),
                   f[w + ' apart'] == Or(f[w + ' inside'],
                                         f[w + ' outside'])]
        else:
            ax += [N(f[w + k]) for k in (' same', ' different', ' inside',
                                         ' outside')]
        # no geometry is empty
        ax.append(Or(f[w + ' overlaps'], f[w + ' apart'], f['left ' + w]))
    # overlapping pieces come in pairs
    ax += [f['test' + k] == f['goal' + k] for k in (' overlaps', ' same',
                                                    ' different')]
    ax.append(f['OVERLAP'] == f['test overlaps'])
    ax.append(f['meet'] == Or(f['TOUCH'], f['CROSS'], f['OVERLAP']))
    # a geometry that ends first has nothing left
    ax.append(N(z3.And(f['left test'], f['left goal'])))
    # pieces that meet are apart
    ax.append(imp(Or(f['TOUCH'], f['CROSS']), z3.And(f['test apart'],
                                                     f['goal apart'])))
    return f, ax


def linear(i, b, e):
    N, A = z3.Not, z3.And
    return {R.CROSS: A(i, e), R.ENCLOSED: A(i, N(e), b),
            R.WITHIN: A(i, N(e), N(b)), R.TOUCH: A(N(i), e, b),
            R.DISJOINT: A(N(i), e, N(b)), R.COMPONENT: A(N(i), N(e))}


def linear_compound(f):
    """By the classes of the points of the test."""
    return linear(f['test inside'],
                  z3.Or(f['TOUCH'], f['CROSS'], f['OVERLAP']),
                  z3.Or(f['test outside'], f['left test'])), []


def open_linear(f):
    N, A, Or = z3.Not, z3.And, z3.Or
    ts = N(Or(f['test apart'], f['left test']))
    gs = N(Or(f['goal apart'], f['left goal']))
    o, x, t = f['OVERLAP'], f['CROSS'], f['TOUCH']
    rest = A(N(ts), N(gs))
    return {R.EQUAL: A(ts, gs), R.COMPONENT: A(ts, N(gs)),
            R.COMPOSITE: A(gs, N(ts)), R.OVERLAP: A(rest, o),
            R.CROSS: A(rest, N(o), x), R.TOUCH: A(rest, N(o), N(x), t),
            R.DISJOINT: A(rest, N(o), N(x), N(t))}, []


def closed_linear(f):
    """Two simple closed curves."""
    N, A, Or = z3.Not, z3.And, z3.Or
    ti, te = f['test inside'], Or(f['test outside'], f['left test'])
    gi, ge = f['goal inside'], Or(f['goal outside'], f['left goal'])
    o = f['OVERLAP']
    meet = Or(f['TOUCH'], f['CROSS'])
    equal = A(N(ti), N(te))
    ax = [  # a closed curve on another one is that curve
        equal == A(N(gi), N(ge)),
        # regions of closed curves that contain each other are the same
        z3.Implies(A(N(te), N(ge)), equal),
        # one curve crosses the other one or lies on one side of it
        z3.Implies(N(o), A(ti, te) == A(gi, ge)),
        z3.Implies(A(N(o), Or(A(ti, te), A(gi, ge))), meet),
        z3.Implies(A(N(o), f['CROSS']), A(ti, te))]
    cross = A(ti, te)
    rest = A(N(equal), N(o))
    return {R.EQUAL: equal, R.OVERLAP: A(N(equal), o),
            R.CROSS: A(rest, cross),
            R.TOUCH: A(rest, N(cross), meet),
            R.DISJOINT: A(rest, N(cross), N(meet))}, ax


def compound(f):
    """Sets bounded by the edges.  Inner points in common, points of one
    set out of the other: by the edges which bound the sets of these."""
    N, A, Or = z3.Not, z3.And, z3.Or
    bi, ib = f['test inside'], f['goal inside']
    diff, same = f['test different'], f['test same']
    ii = Or(bi, ib, same)
    ts = N(Or(f['test outside'], diff, ib, f['left test']))
    gs = N(Or(f['goal outside'], diff, bi, f['left goal']))
    bb = Or(f['TOUCH'], f['CROSS'], f['OVERLAP'])
    table = {
        R.DISJOINT: A(N(ii), N(bb)), R.TOUCH: A(N(ii), bb),
        R.EQUAL: A(ii, ts, gs),
        R.WITHIN: A(ii, ts, N(gs), N(bb)),
        R.COMPONENT: A(ii, ts, N(gs), bb, N(bi)),
        R.ENCLOSED: A(ii, ts, N(gs), bb, bi),
        R.COVER: A(ii, gs, N(ts), N(bb)),
        R.COMPOSITE: A(ii, gs, N(ts), bb, N(ib)),
        R.ENCLOSES: A(ii, gs, N(ts), bb, ib),
        R.OVERLAP: A(ii, N(ts), N(gs))}
    # at a proper crossing of edges there are points of all the kinds
    ax = [z3.Implies(f['CROSS'], A(ii, N(ts), N(gs)))]
    return table, ax


ASSUMED = ['contract of EventsQueue.sweep: the pieces it yields are those of '
           'all edges up to stop_x, with position, overlap and relation as '
           'they lie (correctness of the plane sweep as a whole; its parts '
           'are under contract in events.*, sweep.*)',
           'sets bounded by edges: interiors meet, or one set leaves the '
           'other, exactly if some edge piece shows it (process.*)',
           'simple closed curves: on one side, or crossing (Jordan)']


def group(name, fn, compound_events, table, keep):
    keep = frozenset(keep)

    def run(M):
        e = Engine('process.' + name, functions=['processing.' + fn])
        label = fn
        f, ax = model(compound_events)
        t, more = table(f)
        ax = ax + more
        SR, OK = M.enums.SegmentsRelation, M.enums.OverlapKind
        verdicts = {}

        def judge(seen, finished, left, v):
            key = seen, finished, left, v
            if key not in verdicts:
                s = z3.Solver()
                s.add(ax)
                for k in FLAGS:
                    if k in ('left test', 'left goal'):
                        if finished and left is not None:
                            s.add(f[k] == (k == 'left ' + left))
                    elif k in seen:
                        s.add(f[k])
                    elif finished and k in keep:
                        s.add(z3.Not(f[k]))
                if s.check() == z3.unsat:
                    verdicts[key] = 'impossible', ''
                else:
                    s.add(z3.Not(t.get(v, z3.BoolVal(False))))
                    r = s.check()
                    if r == z3.unsat:
                        verdicts[key] = 'discharged', ''
                    else:
                        m = s.model()
                        verdicts[key] = 'failed', 'events: %s; right: %s' % (
                            ', '.join(k for k in FLAGS
                                      if z3.is_true(m[f[k]])),
                            [x.name for x, y in t.items()
                             if z3.is_true(m.eval(y, True))])
            return verdicts[key]

        def harness(c):
            q = Stream(c, compound_events, label)
            q.M, q.SR, q.OK, q.keep = M, SR, OK, keep
            kind, v = c.outcome(getattr(M.processing, fn), q, q.stop_x)
            seen, fin, left = q.seen, q.finished, q.left
            if kind == 'raise':
                c.prove(False, label + ': no exception', repr(v))
            c.prove(isinstance(v, Relation), label + ': returns a relation',
                    repr(v))
            status, detail = judge(seen, fin, left, v)
            if status == 'impossible':
                raise Stop
            c._record('%s: %s only if it is so' % (label, v.name), status,
                      'events seen: %s; left: %s; the sweep %s; %s' % (
                          sorted(seen), left, 'ended' if fin else 'goes on',
                          detail))
            c.cover('%s returns %s' % (label, v.name))
        s = e.explore(harness).summary()
        s['assumed'] = ASSUMED
        return s
    return run


IN_OUT = ['test inside', 'test outside', 'goal inside', 'goal outside']
GROUPS = {
    'process.linear_compound': group(
        'linear_compound', 'process_linear_compound_queue', True,
        linear_compound, IN_OUT[:2] + ['meet']),
    'process.linear_open': group(
        'linear_open', 'process_open_linear_queue', False, open_linear,
        ['test apart', 'goal apart', 'TOUCH', 'CROSS', 'OVERLAP']),
    'process.linear_closed': group(
        'linear_closed', 'process_closed_linear_queue', True, closed_linear,
        IN_OUT + ['TOUCH', 'CROSS', 'OVERLAP']),
    'process.compound': group(
        'compound', 'process_compound_queue', True, compound,
        IN_OUT + ['test same', 'test different', 'goal same',
                  'goal different', 'CROSS', 'meet'])}
