"""A segment against a multisegment of any number of segments.

The line of the test segment is the real line, its ends are 0 and 1 (only
the order of points on it is ever asked for).  A segment of the multisegment
is known by the way it relates to the test segment (segment.relate proves
that over the reals): D apart, X crossing, S and T touching at an end, M
touching elsewhere by an end (the other end is on a side), C a part of the
test segment from lo to hi, A and B overlapping its beginning and its end,
K one which holds the test segment, Q equal to it.

Ghost state: from 0 to gs and from ge to 1 the pieces seen so far hold all
points (pieces.covered).
"""
import ast
import inspect

import z3

from ..engine import Engine, Fold, SSeq, Violated
from ..model import *  # noqa

R, O = Relation, Orientation
LABEL = 'multisegment.relate_segment'
RELATION = {'D': R.DISJOINT, 'X': R.CROSS, 'S': R.TOUCH, 'T': R.TOUCH,
            'M': R.TOUCH, 'C': R.COMPOSITE, 'A': R.OVERLAP, 'B': R.OVERLAP,
            'K': R.COMPONENT, 'Q': R.EQUAL}
FLAT = 'CAB'


class LP:
    """A point of the line."""
    __slots__ = ('t', 'piece')

    def __init__(self, t, piece=None):
        self.t, self.piece = t, piece
        if Line.of is not None:
            Line.of.points.append(self)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Off):
            o.known()
            return False
        if not isinstance(o, LP):
            return NotImplemented
        r = E.ctl().branch(self.t == o.t)
        if r and self.piece is not None and o.piece is not None:
            Line.of.meet(self.piece, o.piece)
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o): return E.ctl().branch(self.t < o.t)
    def __gt__(self, o): return E.ctl().branch(self.t > o.t)
    def __le__(self, o): return E.ctl().branch(self.t <= o.t)
    def __ge__(self, o): return E.ctl().branch(self.t >= o.t)

    def __hash__(self):
        return 7

    def _no(self):
        raise Undecided('coordinates of a point of the line')
    x = y = property(_no)

    def __pyvc_describe__(self, env):
        env.terms.append(self.t)
        return ('LP', len(env.terms) - 1)

    def __repr__(self):
        return 'LP(%s)' % self.t


class Off:
    """A point off the line; without a side nothing is known of it."""

    def __init__(self, side=None):
        self.side = side

    def known(self):
        if self.side is None:
            raise Undecided('an end that is of no importance')

    def __eq__(self, o):
        self.known()
        return self is o

    def __hash__(self):
        self.known()
        return 7

    def _no(self, *a):
        raise Undecided('coordinates of a point off the line')
    x = y = property(_no)
    __lt__ = __gt__ = __le__ = __ge__ = _no

    def __pyvc_describe__(self, env):
        return ('off', self.side)


class Piece:
    """One of the segments."""

    def __init__(self, kind, first, second):
        self.kind, self.start, self.end = kind, first, second

    def __pyvc_describe__(self, env):
        return ('piece', self.kind, env.describe(self.start),
                env.describe(self.end))


class Many:
    """In a list: the pairs put on it so far, one or more."""

    def __pyvc_describe__(self, env):
        return 'many'


class Those:
    """In a set or a dictionary: points of a kind met so far."""

    def __init__(self, what, value=None):
        self.what, self.value = what, value

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if not isinstance(o, LP):
            return self is o
        return Line.of.among(self, o)

    def __pyvc_describe__(self, env):
        return ('those', self.what)


class PList(list):
    __hash__ = None

    def many(self):
        return any(isinstance(x, Many) for x in list.__iter__(self))

    def __iter__(self):
        if self.many():
            return iter(Line.of.content(self))
        return list.__iter__(self)

    def _no(self):
        if self.many():
            raise Undecided('a list of many pairs is used as a whole')

    def sort(self, *a, **k):
        self._no()
        list.sort(self, *a, **k)

    def __pyvc_len__(self):
        self._no()
        return len(self)

    def __getitem__(self, i):
        self._no()
        return list.__getitem__(self, i)

    def __contains__(self, x):
        self._no()
        return list.__contains__(self, x)

    def __pyvc_describe__(self, env):
        return ('PList',) + tuple(env.describe(x)
                                  for x in list.__iter__(self))


class PDict(dict):
    pass


class PSet(set):
    __hash__ = None

    def __iter__(self):
        if any(type(x) is Those for x in set.__iter__(self)):
            raise Undecided('iteration over a set')
        return set.__iter__(self)

    def __pyvc_describe__(self, env):
        return ('PSet',) + tuple(env.describe(x)
                                 for x in set.__iter__(self))


class Displays(ast.NodeTransformer):
    """Displays of lists, sets and dictionaries become calls."""

    def _call(self, node, name, elts):
        new = ast.Call(ast.Name(name, ast.Load()),
                       [ast.Tuple(elts, ast.Load())] if elts else [], [])
        return ast.copy_location(new, node)

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        return self._call(node, '__pyvc_list', node.elts)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, '__pyvc_set', node.elts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if None in node.keys:
            return node
        return self._call(node, '__pyvc_dict', [
            ast.Tuple([k, v], ast.Load())
            for k, v in zip(node.keys, node.values)])


def prepare(M):
    """Displays of the module give containers the loop heads sum up."""
    mod = M.multisegment
    tree = Displays().visit(ast.parse(inspect.getsource(mod)))
    tree = ast.fix_missing_locations(tree)

    def made(cls):
        def make(*args):
            if args and E.as_iseq(args[0]) is not None:
                raise Undecided('a container of a symbolic sequence')
            r = cls(*args)
            Line.of.containers.append(r)
            return r
        return make
    for k, cls in (('list', PList), ('set', PSet), ('dict', PDict)):
        mod.__dict__['__pyvc_' + k] = mod.__dict__[k] = made(cls)
    exec(compile(tree, mod.__file__, 'exec'), mod.__dict__)
    for k, v in mod.__dict__.items():
        if callable(v) and getattr(v, '__module__', '') == mod.__name__:
            M.original['multisegment', k] = v
    return E.shadow(mod)


class Line:
    """Ghost state of the loops and the hypotheses of the group."""
    of = None
    name = 'pieces'

    def __init__(self, c, what):
        self.c, self.what, self.points = c, what, []
        Line.of = self
        self.containers = []
        self.gs, self.ge = z3.RealVal(0), z3.RealVal(1)
        self.legit = False        # two pieces at a point, on both sides
        self.covered = False
        self.marks = []           # pieces of marked positions
        self.seen = []
        self.decided = {}
        self.frozen = None
        self.last = None
        self.x = None

    def __pyvc_describe__(self, env):
        d = ('line', self.what == 'touch' and self.legit, self.covered,
             tuple(self.seen))
        if self.what != 'touch':
            env.terms += [self.gs, self.ge]
        if self.x is not None:
            env.terms.append(self.x)
        for m in self.marks:
            if m.kind in FLAT:
                env.terms += [m.lo, m.hi]
        return d

    # --- pieces ---------------------------------------------------------
    def piece(self, kinds='DXSTMCABKQ', name='piece'):
        c = self.c
        kind = c.choose(kinds)
        swap = kind in 'MCAB' and c.choose((False, True))
        if kind in FLAT:
            lo, hi = c.real(name + '_lo').e, c.real(name + '_hi').e
            p, q = LP(lo), LP(hi)
            r = Piece(kind, q, p) if swap else Piece(kind, p, q)
            r.lo, r.hi, r.p, r.q = lo, hi, p, q
            c.assume({'C': z3.And(0 <= lo, lo < hi, hi <= 1,
                                  z3.Or(lo > 0, hi < 1)),
                      'A': z3.And(lo < 0, 0 < hi, hi < 1),
                      'B': z3.And(0 < lo, lo < 1, hi > 1)}[kind])
            for m in self.marks:
                self.apart(r, m)
            if self.what == 'sound':
                c.assume(z3.Or(hi <= self.x, lo > self.x))
        elif kind == 'M':
            m, o = LP(c.real(name + '_at').e), Off(c.choose('LR'))
            c.assume(z3.And(m.t > 0, m.t < 1))
            r = Piece(kind, o, m) if swap else Piece(kind, m, o)
            r.at, r.side = m, o.side
            m.piece = r
        else:
            r = Piece(kind, Off(), Off())
        return r

    def apart(self, a, b):
        """Two segments of a multisegment have no common piece."""
        if a.kind in FLAT and b.kind in FLAT:
            self.c.assume(z3.Or(a.hi <= b.lo, b.hi <= a.lo))

    def step(self, p, v):
        c = self.c
        if isinstance(v, tuple):
            self.last = v
            return
        if self.what == 'touch' or v.kind not in FLAT:
            for k, m in enumerate(self.marks):
                self.seen[k] = self.seen[k] or m is v
            return
        for k, m in enumerate(self.marks):
            if m is v:
                self.seen[k] = True
        if self.what != 'covered':
            # pieces.covered: the new one has nothing of these in common
            c.assume(z3.Or(self.gs == 0, v.lo >= self.gs))
            c.assume(z3.Or(self.ge == 1, v.hi <= self.ge))
        else:
            self.covered = self.covered or c.branch(
                z3.And(v.lo <= self.x, self.x < v.hi))
        if v.kind == 'A' or v.kind == 'C' and c.branch(v.lo == self.gs):
            self.gs = v.hi
        elif v.kind == 'B' or c.branch(v.hi == self.ge):
            self.ge = v.lo

    def meet(self, a, b):
        self.legit = self.legit or a is not b and a.side != b.side

    # --- summaries at loop heads ------------------------------------------
    def before(self):
        for x in self.containers:
            if isinstance(x, PList):
                self.sum_list(x)
            elif isinstance(x, PDict):
                self.sum_dict(x)
            elif isinstance(x, PSet):
                self.sum_set(x)
        self.decided.clear()

    def mine(self, pair):
        return any(m.kind in FLAT and pair[0] is m.p and pair[1] is m.q
                   for m in self.marks)

    def sum_list(self, x):
        old = list.copy(x)
        new, many = [], None
        for y in old:
            if isinstance(y, Many):
                many = y
            elif (isinstance(y, tuple) and len(y) == 2
                    and all(isinstance(z, LP) for z in y)):
                if self.mine(y):
                    new.append(y)
                else:
                    if self.frozen is None and not self.is_piece(y):
                        raise Undecided('a list of other pairs')
                    many = many or Many()
            else:
                raise Undecided('a list of other things')
        if many:
            new.insert(0, many)
        if len(old) != len(new) or any(a is not b
                                       for a, b in zip(old, new)):
            if self.frozen is not None and x is self.frozen[0]:
                raise Undecided('a list that changes while it is read')
            x[:] = new

    def is_piece(self, y):
        p = getattr(self, 'current', None)
        return p is not None and y[0] is p.p and y[1] is p.q

    def sum_dict(self, x):
        c = self.c
        if any(not isinstance(k, Those)
               and (not isinstance(k, LP) or k.piece is None) for k in x):
            raise Undecided('a dictionary of other keys')
        new = {}
        first = {}
        for k, v in x.items():
            if isinstance(k, Those):
                new[k.what, v] = k, v
                continue
            at = self.marks[0].at if self.what == 'touch' \
                and self.marks else None
            if at is not None and (k is at or c.branch(k.t == at.t)):
                k2 = LP(at.t, k.piece)
                first[k2] = v
            else:
                new.setdefault((k.piece.side, v), (Those(k.piece.side), v))
        if new and self.what != 'touch':
            # of no importance: any contents
            new = {(w, v): (Those(w), v) for w, v in zip(
                'LR', (O.COUNTERCLOCKWISE, O.CLOCKWISE))}
        x.clear()
        for k, v in first.items():
            x[k] = v
        for key in sorted(new, key=lambda t: (t[0], str(t[1]))):
            k, v = new[key]
            dict.__setitem__(x, k, v)

    def sum_set(self, x):
        keep, some = [], False
        for y in set.__iter__(x):
            if type(y) is Those:
                some = True
            elif not isinstance(y, LP):
                raise Undecided('a set of other things')
            elif self.frozen is not None and any(
                    y is v[0] for _, v in self.frozen[2]):
                keep.append(y)
            elif self.frozen is not None and self.last is not None \
                    and y is self.last[0]:
                some = True
            else:
                raise Undecided('a set of other points')
        x.clear()
        if some:
            set.add(x, Those('start'))
        for y in sorted(keep, key=lambda y: [
                k for k, (_, v) in enumerate(self.frozen[2]) if v[0] is y]):
            set.add(x, y)

    def among(self, those, p):
        """Is the point one of those?"""
        c = self.c
        key = id(those), p.t.get_id()
        r = self.decided.get(key)
        if r is not None:
            return r
        if those.what in ('L', 'R'):
            if p.piece is None:
                raise Undecided('a point of no piece is looked up')
            if self.what == 'touch' and self.marks:
                if p is self.marks[0].at or c.branch(
                        p.t == self.marks[0].at.t):
                    return False
            r = c.choose((True, False))
            if r and those.what != p.piece.side:
                self.legit = True
        else:
            for _, (a, b) in self.frozen[2]:
                if p is a or c.branch(p.t == a.t):
                    return False
            r = c.choose((True, False))
            if r:
                lo, hi = self.pair()
                c.assume_feasible(lo.t == p.t)
        self.decided[key] = r
        return r

    # --- the pairs on the list --------------------------------------------
    def pair(self, name=None):
        """Some pair of the list."""
        c = self.c
        if name is None:
            lo, hi = c.real('lo').e, c.real('hi').e
        else:
            lo, hi = (c.glob(name + k, z3.RealSort()) for k in ('_lo', '_hi'))
        # pieces.kept
        c.assume(z3.And(self.gs <= lo, lo < hi, hi <= self.ge))
        if self.what == 'sound':
            c.assume(z3.Or(hi <= self.x, lo > self.x))
            if self.frozen is not None:
                m = self.frozen[3]
                c.assume(z3.Or(lo > self.x, hi <= m) if m is not None
                         else lo > self.x)
        # another one than those below
        for _, (a, b) in self.frozen[2] if self.frozen is not None else ():
            c.assume(z3.Or(hi <= a.t, b.t <= lo))
        return LP(lo), LP(hi)

    def vocab(self, terms, p):
        gs, ge = self.gs, self.ge
        fs = []
        refs = [gs, ge]
        if self.what != 'touch':
            fs += [0 <= gs, gs == 0, ge <= 1, ge == 1, gs <= ge,
                   ge <= gs] if self.frozen is None else [gs < ge]
        if self.what == 'sound':
            fs += [gs <= self.x, self.x < ge]
            refs.append(self.x)
        if self.what == 'covered':
            fs += [gs <= self.x, self.x < gs, ge <= self.x, self.x < ge]
            refs.append(self.x)
        for m in self.marks:
            if m.kind in FLAT:
                fs += [gs <= m.lo, m.hi <= gs, m.hi <= ge, ge <= m.lo]
        if self.frozen is not None:
            for _, (a, b) in self.frozen[2]:
                refs += [a.t, b.t]
        ids = {E.gid(E.simp(r)) for r in refs}
        refs = [r for r in refs if not z3.is_rational_value(r)]
        for t in terms:
            if t.sort() == z3.RealSort() and E.gid(E.simp(t)) not in ids \
                    and not z3.is_rational_value(t):
                ids.add(E.gid(E.simp(t)))
                for r in refs:
                    fs += [t <= r, r <= t]
                    if self.x is not None and E.gid(r) == E.gid(self.x):
                        fs += [r < t, t < r]
        return fs

    def forget(self):
        """Keeps what is known of gs, ge and x, drops the rest."""
        c = self.c
        facts = [self.gs < self.ge]
        if self.what == 'sound':
            facts += [self.gs <= self.x, self.x < self.ge]
        known = [f for f in facts if c._entailed(f)]
        gs, ge = (c.glob(k, z3.RealSort()) for k in ('from_start',
                                                     'to_end'))
        known = [z3.substitute(f, (self.gs, gs), (self.ge, ge))
                 for f in known] if not E.gid(self.gs) == E.gid(self.ge) \
            else [z3.substitute(f, (self.gs, gs)) for f in known]
        for v in self.points:
            if E.gid(v.t) == E.gid(self.gs):
                v.t = gs
            elif E.gid(v.t) == E.gid(self.ge):
                v.t = ge
        self.gs, self.ge = gs, ge
        c.pc, c.known = [], {}
        for f in known:
            c.assume(f)

    def content(self, x):
        c = self.c
        if self.what in ('kept', 'covered', 'touch'):
            raise Done
        if self.frozen is not None:
            if self.frozen[0] is not x:
                raise Undecided('two lists of pairs')
            return self.frozen[1]
        # pieces.kept: the pairs lie between
        c.assume_feasible(self.gs < self.ge)
        self.forget()
        n = c.glob('n_pairs', z3.IntSort())
        c.assume(n >= 1)
        given, top = [], None
        if self.what == 'sound':
            # a finite set of numbers has a greatest one, if any
            if c.choose((False, True)):
                lo, hi = self.pair('top')
                c.assume(hi.t <= self.x)
                top = hi.t
                given.append((lo, hi))
        else:
            # pieces.kept: some piece holds each point from gs to ge
            def point(k):
                return LP(c.glob(k, z3.RealSort()))
            a = LP(self.gs), point('first_hi')
            b = point('last_lo'), LP(self.ge)
            y = self.x = point('y').t
            c.assume(z3.And(self.gs <= y, y < self.ge))
            if c.choose((True, False)):
                b = a = a[0], b[1]
                given = [a]
            else:
                c.assume(z3.And(a[0].t < a[1].t, a[1].t <= b[0].t,
                                b[0].t < b[1].t))
                given = [a, b]
            if not any(c.branch(z3.And(u.t <= y, y < v.t))
                       for u, v in given):
                u, v = self.pair('mid')
                c.assume(z3.And(u.t <= y, y < v.t))
                for d, e in given:
                    c.assume(z3.Or(v.t <= d.t, e.t <= u.t))
                given.append((u, v))
        entries, at = [], []
        for v in given:
            k = c.glob('at_%d' % len(entries), z3.IntSort())
            c.assume(z3.And(k >= 0, k < n))
            for j in at:
                c.assume(k != j)
            at.append(k)
            entries.append((k, v))
        seq = SSeq('pairs', n, lambda p: self.pair(), ghost=self,
                   marks=tuple(at), windowed=False,
                   vocab=self.vocab)
        seq.entries = list(entries)
        seq.entry = 'pairs', len(given), top is not None
        keep = seq.rewindow

        def rewindow(p, win, mark):
            keep(p, win, mark)
            have = [t.get_id() for t, _ in seq.entries]
            seq.entries = [x for x in entries
                           if x[0].get_id() not in have] + seq.entries
        seq.rewindow = rewindow
        self.frozen = x, seq, entries, top
        return seq


def consume(it):
    for _ in it:
        pass


class Done(BaseException):
    """The group has nothing to say of what follows."""


class PieceContext(VContext):
    def __init__(self, whole):
        self.whole = whole

    def angle_orientation(self, a, b, d):
        if (isinstance(a, LP) and isinstance(b, LP)
                and isinstance(d, Off)):
            d.known()
            return (O.COUNTERCLOCKWISE if (a < b) == (d.side == 'L')
                    else O.CLOCKWISE)
        raise Undecided('another angle')

    def segments_intersection(self, a, b):
        v = a if b is self.whole else b
        if not (isinstance(v, Piece) and (a is self.whole
                                          or b is self.whole)):
            raise Undecided('intersection of other segments')
        if v.kind == 'M':
            return v.at
        if v.kind in 'ST':
            return LP(z3.RealVal(int(v.kind == 'T')))
        raise Undecided('intersection of segments that do not touch')

    def segments_relation(self, a, b):
        raise Undecided('relation of segments past its contract')
    segment_contains_point = segments_relation


def step(state, v, what):
    comp, over, part, touch, cross = state
    r = RELATION[v.kind]
    if what != 'touch':
        r = R.DISJOINT if r in (R.TOUCH, R.CROSS) else r
    return (comp or r in (R.COMPONENT, R.EQUAL),
            over or r in (R.COMPOSITE, R.OVERLAP),
            part or r is not R.COMPOSITE,
            touch or r is R.TOUCH, cross or r is R.CROSS)


def group(what, marked=FLAT, swaps=(False, True)):
    def run(M):
        e = Engine('pieces.' + what, functions=[
            LABEL, 'multisegment._subtract_segments_overlap',
            'utils.to_sorted_pair'], budget=280.)
        e.merge_inner = e.minimal = True
        bad = prepare(M)

        def harness(c):
            if bad:
                raise Undecided('builtins of %s' % bad)
            line = Line(c, what)
            n = c.glob('n', z3.IntSort())
            c.assume(n >= 1)
            swap = c.choose(swaps)
            a, b = LP(z3.RealVal(0)), LP(z3.RealVal(1))
            whole = G.Segment(b, a) if swap else G.Segment(a, b)
            marks = []
            if what in ('covered', 'sound'):
                line.x = c.glob('x', z3.RealSort())
                c.assume(z3.And(line.x >= 0, line.x < 1))
            if what == 'kept':
                marks = [line.piece(marked, 'mark')]
                line.y = c.glob('y', z3.RealSort())
            if what == 'touch' and marked == 'M':
                marks = [line.piece('M', 'mark'), line.piece('M', 'mark')]
                c.assume(marks[0].at.t == marks[1].at.t)
                marks[1].at.t = marks[0].at.t
                if marks[0].side == marks[1].side:
                    raise Stop
            at = [c.glob('k%d' % i, z3.IntSort()) for i in range(len(marks))]
            for i, k in enumerate(at):
                c.assume(z3.And(k >= 0, k < n))
                if i:
                    c.assume(at[0] < k)
            for m in marks:
                for s in E.symbols(m.lo if m.kind in FLAT else m.at.t):
                    c.birth[s] = 0
                if m.kind in FLAT:
                    for s in E.symbols(m.hi):
                        c.birth[s] = 0
            line.marks, line.seen = marks, [False] * len(marks)
            kinds = {'covered': 'DCABKQ', 'touch': 'DXSTMKQ'}.get(
                what, 'DXSTMCABKQ')

            def make(p):
                v = line.piece(kinds)
                line.current = v
                return v
            seq = SSeq('pieces', n, make, ghost=line, marks=tuple(at),
                       windowed=False, vocab=line.vocab)
            seq.entries = [(k, m) for k, m in zip(at, marks)]

            def relate(goal, test, context):
                if isinstance(goal, Piece) and test is whole:
                    return RELATION[goal.kind]
                if isinstance(test, Piece) and goal is whole:
                    return RELATION[test.kind].complement
                raise Undecided('relation of other segments')
            M.stub_again('segment', 'relate_segment', relate)
            c.folds[E.gid(n)] = Fold(
                (False,) * 5, lambda s, p: step(s, seq.at(p), what))
            try:
                kind, v = c.outcome(consume, seq) if what == 'covered' \
                    else c.outcome(M.multisegment.relate_segment,
                                    G.Multisegment(seq), whole,
                                    PieceContext(whole))
            except Done:
                kind, v = 'return', None
            if kind == 'raise':
                c.prove(False, LABEL + ': no exception', repr(v))
            k = E.gid(n)
            judge(c, line, v, c.fold_run.get(k, (False,) * 5),
                  k in c.fold_done)
        s = e.explore(harness).summary()
        s['assumed'] = [
            'pieces which the segments of a multisegment have on one line '
            'do not overlap; a finite set of numbers has a greatest one',
            'lists, sets and dictionaries displayed in the module '
            'multisegment are made by calls of subclasses of list, set and '
            'dict (the one rewriting of the code)']
        return s
    return run


def judge(c, line, v, run, done):
    what = line.what
    comp, over, part, touch, cross = run
    if comp:
        c.prove(v is R.COMPONENT or v is None and what not in (
            'sound', 'complete'), LABEL + ': COMPONENT when a segment holds '
            'the test segment', repr(v))
        c.cover('holds')
        return
    if not done:
        c.prove(False, LABEL + ': all segments are looked at')
    if what == 'covered':
        x = line.x
        c.prove(z3.Implies(z3.Or(x < line.gs, x >= line.ge),
                           z3.BoolVal(line.covered)),
                'pieces seen hold all points up to gs and from ge on')
        c.cover('covered')
        return
    if not over:
        if v is None:
            raise Undecided('pairs without a common piece')
        if what != 'touch':
            c.prove(v in (R.DISJOINT, R.TOUCH, R.CROSS),
                    LABEL + ': no common piece', repr(v))
            return
        if line.marks or cross:
            c.prove(v is R.CROSS, LABEL + ': CROSS when a segment crosses '
                    'or two pass through at a point', repr(v))
        elif v is R.CROSS:
            c.prove(line.legit, LABEL + ': CROSS only when a segment crosses '
                    'or two pass through at a point')
        else:
            c.prove(v is (R.TOUCH if touch else R.DISJOINT),
                    LABEL + ': TOUCH iff a segment touches', repr(v))
        c.cover('%s %s' % (what, v))
        return
    if what == 'touch':
        return
    if what == 'kept':
        m = line.marks[0]
        lists = [x for x in line.containers if isinstance(x, PList)]
        kept = any(y[0] is m.p and y[1] is m.q for x in lists
                   for y in list.__iter__(x) if isinstance(y, tuple)
                   and len(y) == 2)
        if kept:
            c.prove(z3.And(line.gs <= m.lo, m.hi <= line.ge),
                    LABEL + ': pieces on the list are between gs and ge')
            c.cover('kept')
        else:
            c.prove(z3.Or(m.hi <= line.gs, m.lo >= line.ge),
                    LABEL + ': pieces off the list are up to gs or from ge '
                    'on')
            c.cover('not kept')
        return
    full = v in (R.EQUAL, R.COMPONENT)
    c.prove(v in ((R.COMPONENT, R.OVERLAP) if part
                  else (R.EQUAL, R.COMPOSITE)),
            LABEL + ': the multisegment is a part of the test segment iff '
            'all its segments are', repr(v))
    if what == 'sound':
        c.prove(not full, LABEL + ': a part of the multisegment only if all '
                'points are held', repr(v))
        c.cover('sound %s' % v)
    else:
        if line.frozen is None:
            lists = [x for x in line.containers
                     if isinstance(x, PList) and len(x)]
            if not lists:
                c.assume_feasible(line.gs == line.ge)     # pieces.kept
                c.prove(full, LABEL + ': a part of the multisegment when '
                        'the pieces from both ends meet', repr(v))
                c.cover('complete, no list')
            else:
                c.prove(False, LABEL + ': the list is read')
        if not full:
            if line.last is not None:
                c.assume_feasible(line.x == line.last[1].t)
            c.prove(False, LABEL + ': a part of the multisegment when all '
                    'points are held', repr(v))
        c.cover('complete %s' % v)


GROUPS = {'linear.pieces.' + w: group(w)
          for w in ('covered', 'sound', 'complete')}
for _s in (False, True):
    for _k in 'DM':
        GROUPS['linear.pieces.touch.%s%d' % (_k.lower(), _s)] = group(
            'touch', _k, (_s,))
for _k in FLAT:
    for _s in (False, True):
        GROUPS['linear.pieces.kept.%s%d' % (_k.lower(), _s)] = group(
            'kept', _k, (_s,))
