"""Contracts of the functions that relate to a polygon by its border and its
holes: the relation follows from those of the parts, for every configuration
of cells (see topology.py) and every number of holes and regions."""
import copy
import time

import z3

from ..engine import Engine, Picks, SSeq
from ..model import *  # noqa
from . import topology as T
from .basic import Part
from .wrap import Boxes, RAW, a_box

ALL = RAW['compound']
LIN = RAW['linear_compound']
NAMES = [r.name for r in ALL]
_implied = {}
_spaces = {}


def implied():
    """What one region's relation to another one says cell by cell."""
    if not _implied:
        s = T.Space(['P', 'Y'])
        s.closure()
        s.region('P')
        s.region('Y')
        rel = s.areal(T.view('P'), T.view('Y'))
        for r in NAMES:
            sol = z3.Solver()
            sol.add(s.all(), rel[r])
            must, never = set(), set()
            feasible = sol.check() == z3.sat
            if feasible:
                for v, x in zip(s.cells, s.var):
                    k = v['P'], v['Y']
                    if sol.check(x) == z3.unsat:
                        never.add(k)
                    elif sol.check(z3.Not(x)) == z3.unsat:
                        must.add(k)
            _implied[r] = feasible, must, never
    return _implied


class Scan:
    """Ghost of a loop over the parts: the relations seen, and of which
    parts the positions were put on the list."""

    collects = True

    def __init__(self, k, seq, name):
        self.k, self.seq, self.name = k, seq, name
        self.seen = frozenset()
        self.cur, self.rel, self.took = None, None, False
        self.runs = 0
        self.other = None
        seq.ghost = self
        k.c.ghosts.append(self)

    def start(self):
        self.runs += 1
        self.seen = frozenset()

    def picked(self, v):
        if self.took:
            raise Undecided('two lists of parts')
        self.took = True

    def before(self):
        if self.cur is not None:
            if self.rel is None:
                raise Undecided('a part is not looked at')
            self.seen |= {(self.rel.name, self.took)}
        self.cur, self.rel, self.took = None, None, False

    def step(self, p, v):
        self.cur, self.rel, self.took = v, None, False

    def __pyvc_describe__(self, env):
        return ('scan', self.name, tuple(sorted(self.seen)), self.runs,
                self.rel, self.cur is None, self.took)


class Kit:
    """The geometries of one call and all that is learnt of them."""

    def __init__(self, c, label):
        self.c, self.label = c, label
        self.ctx = Boxes(c, label)
        self.only = None           # borders' relations of this shard
        self.facts = []            # (test view id, goal view id, relation)
        self.scans = []
        self.whole = []            # (object, name, is a sequence)
        c.ghosts.append(self)

    def __pyvc_describe__(self, env):
        return ('kit', tuple((str(t), str(g), r.name)
                             for t, g, r in self.facts))

    def one(self, name):
        x = Part(name)
        x.data = a_box(self.c, name, True)
        self.whole.append((x, name))
        return x

    def many(self, name, least):
        c = self.c
        n = c.glob('n_' + name, z3.IntSort())
        c.assume(n >= least)

        def make(p):
            x = Part(name + '_part')
            x.data = a_box(c, name)
            return x
        seq = SSeq(name, n, make, windowed=False)
        self.scans.append(Scan(self, seq, name))
        self.ctx.give(seq, a_box(c, name, True))
        self.whole.append((seq, name))
        return seq

    def polygon(self, name):
        b, h = self.one(name + 'B'), self.many(name + 'H', 0)
        p = G.Polygon(b, h)
        self.ctx.give(p, b.data)
        return p

    # ------------------------------------------------------------ lookup
    def who(self, x):
        """('set', name), ('part', scan) or ('picked', scan)."""
        for y, name in self.whole:
            if x is y:
                if isinstance(y, SSeq):
                    self.c.prove(y.n > 0, self.label + ': no relation to '
                                 'nothing is asked for')
                return 'set', name
        for s in self.scans:
            if s.cur is not None and x is s.cur:
                return 'part', s
        if type(x) is list and len(x) == 1 and isinstance(x[0], Picks):
            for s in self.scans:
                if x[0].of == s.name:
                    return 'picked', s.name
        if type(x) is list and len(x) == 1:
            return self.who(x[0])
        self.c.prove(False, self.label + ': relations of the parts are '
                     'asked for', repr(x))

    def ask(self, test, goal, options):
        t, g = self.who(test), self.who(goal)
        if 'part' in (t[0], g[0]):
            options = [o for o in options if implied()[o.name][0]]
        if {t[1], g[1]} == {'gB', 'tB'} and self.only is not None:
            flip = t[1] == 'gB'
            options = [o for o in options
                       if (o.complement if flip else o).name in self.only]
        r = self.c.choose(options)
        for a, b, flip in ((t, g, False), (g, t, True)):
            if a[0] == 'part':
                s = a[1]
                if b[0] != 'set' or s.other not in (None, b[1]):
                    raise Undecided('parts against several others')
                if s.rel is not None:
                    raise Undecided('a part is related twice')
                s.other = b[1]
                s.rel = r.complement if flip else r
                return r
        self.facts.append((t, g, r))
        return r

    def same_box(self, box, x):
        want = self.ctx.find(x)
        if want is None:
            self.c.prove(False, self.label + ': a box of an argument',
                         repr(x))
        self.c.prove(box is want or all(
            z3.eq(z3.simplify(getattr(box, k).e), getattr(want, k).e)
            for k in ('min_x', 'max_x', 'min_y', 'max_y')),
            self.label + ': the box handed over belongs to the geometry')


def install(M):
    def kit(context):
        k = E.ctl().note['kit']
        k.c.prove(context is k.ctx, k.label + ': the context is handed down')
        return k

    def stub(module, name, f):
        if (module, name) in M.original:
            M.stub(module, name, f)

    def regions(goal, test, goal_bounding_box, test_bounding_box, context):
        k = kit(context)
        k.same_box(goal_bounding_box, goal)
        k.same_box(test_bounding_box, test)
        return k.ask(test, goal, possible())
    stub('region', '_relate_region', regions)

    def possible():
        return [r for r in ALL if implied()[r.name][0]]

    def regions2(goal, test, context):
        return kit(context).ask(test, goal, possible())
    stub('region', 'relate_region', regions2)

    def multis(goal, test, context):
        return kit(context).ask(test, goal, ALL)
    stub('multiregion', 'relate_multiregion', multis)

    def multi(goal_regions, region, region_bounding_box, context):
        k = kit(context)
        k.same_box(region_bounding_box, region)
        return may_be_empty(k, goal_regions, region, ALL)

    def may_be_empty(k, goal, test, options):
        # this contract includes the goal without regions (group wrap.*)
        if isinstance(goal, SSeq) and not k.c.branch(goal.n > 0):
            return Relation.DISJOINT
        return k.ask(test, goal, options)
    stub('multiregion', '_relate_region', multi)

    def multi2(multiregion, region, context):
        return may_be_empty(kit(context), multiregion, region, ALL)
    stub('multiregion', 'relate_region', multi2)

    def contour(region, contour, contour_bounding_box, context):
        k = kit(context)
        k.same_box(contour_bounding_box, contour)
        return k.ask(contour, region, LIN)
    stub('region', '_relate_contour', contour)

    def contour2(region, contour, context):
        return kit(context).ask(contour, region, LIN)
    stub('region', 'relate_contour', contour2)

    def contours(multiregion, contour, contour_bounding_box, context):
        k = kit(context)
        k.same_box(contour_bounding_box, contour)
        return may_be_empty(k, multiregion, contour, LIN)
    stub('multiregion', '_relate_contour', contours)

    def contours2(multiregion, contour, context):
        return may_be_empty(kit(context), multiregion, contour, LIN)
    stub('multiregion', 'relate_contour', contours2)

    def disjoint(left, right):
        raise Undecided('boxes are compared')
    stub('box', 'disjoint_with', disjoint)


# --------------------------------------------------------- the final space

_containing = {}


def containing(k, s, p):
    """Relations to the other set which a part (a region) may have that
    contains the interior of the polygon."""
    y = s.other
    b, h = p + 'B', p + 'H'
    key = y, p
    if key not in _containing:
        names = ['P', b, h] + ([y] if y not in (b, h) else [])
        sp = T.Space(names, lambda v: T.in_border(v[b], v[h]))
        sp.closure()
        sp.finite(b, h)
        for n in names:
            if n != h and n != p + 'H':
                sp.region(n, [(b, h)])
        sp.connected(lambda v: v[b] == 'I' and v[h] == 'E', True, [(b, h)])
        sp.axioms.append(sp.some(lambda v: v[b] == 'I' and v[h] == 'E'))
        sp.axioms.append(z3.Not(sp.some(
            lambda v: v[b] == 'I' and v[h] == 'E' and v['P'] != 'I')))
        got = set()
        for r, f in sp.areal(T.view('P'), T.view(y)).items():
            q = z3.Solver()
            q.add(sp.all(), f)
            if q.check() != z3.unsat:
                got.add(r)
        _containing[key] = got
    return _containing[key]


class Model:
    """Builds the space of the sets which a path tells apart."""

    def __init__(self, k, polygons, tests, filled):
        self.k = k
        self.split = {}
        for s in k.scans:
            if s.runs > 1:
                raise Undecided('the parts are gone through twice')
            if s.runs and s.cur is not None:
                self.split[s.name] = 'now'
            elif s.runs:
                self.split[s.name] = 'done'
        names, self.views, groups = [], {}, []
        finite = []

        def pieces(name):
            if name in self.split:
                ns = [name + '1', name + '0']
                finite.append(tuple(ns))
            else:
                ns = [name]
            names.extend(ns)
            self.views[name] = T.union(*ns)
            return ns
        for p in polygons:
            b = p + 'B'
            names.append(b)
            self.views[b] = T.view(b)
            hs = pieces(p + 'H')
            finite.extend((b, h) for h in hs)
            groups.append((b, hs))
            self.views[p] = T.difference(self.views[b], self.views[p + 'H'])
        for t in tests:
            if t in [s.name for s in k.scans]:
                groups.append((None, pieces(t)))
            else:
                names.append(t)
                self.views[t] = T.view(t)

        def feasible(v):
            for b, hs in groups:
                if b is not None and not all(T.in_border(v[b], v[h])
                                             for h in hs):
                    return False
                if len(hs) == 2 and not T.side_by_side(v[hs[0]], v[hs[1]]):
                    return False
            return True
        key = (tuple(names), tuple(sorted(self.split.items())),
               tuple((b, tuple(hs)) for b, hs in groups))
        if key not in _spaces:
            _spaces[key] = self._base(k, names, feasible, finite, groups,
                                      polygons)
        self.space = sp = copy.copy(_spaces[key])
        sp.axioms = list(sp.axioms)
        # numbers of parts
        for s in k.scans:
            some = sp.some(lambda v: self.views[s.name](v) != 'E')
            if filled[s.name]:
                sp.axioms.append(sp.some(
                    lambda v: self.views[s.name](v) == 'I'))
            else:
                sp.axioms.append(z3.Not(some))
            if s.name in self.split:
                self._scan(sp, s)
            if self.split.get(s.name) == 'done':
                self._in_one(sp, s, polygons)
        for t, g, r in k.facts:
            sp.axioms.append(self._relation(t, g, r))

    def _in_one(self, sp, s, polygons):
        """A connected open set in a union of parts with disjoint interiors
        and finitely many common points is in one of them."""
        for p in polygons:
            if p + 'H' == s.name:
                continue
            got = containing(self.k, s, p)
            if not any(r in got for r, _ in s.seen):
                a, m = self.views[p], self.views[s.name]
                sp.axioms.append(sp.some(
                    lambda v: a(v) == 'I' and m(v) != 'I'))

    def _base(self, k, names, feasible, finite, groups, polygons):
        sp = T.Space(names, feasible)
        sp.closure()
        for m, n in finite:
            sp.finite(m, n)
        multi = [h for _, hs in groups for h in hs]
        for n in names:
            if n not in multi:
                sp.region(n, finite)
        views = [self.views[p] for p in polygons] + [
            self.views[s.name] for s in k.scans if s.name in self.split]
        for b, hs in groups:
            if b is None:
                continue
            un = T.union(*hs)
            # the interior of a polygon is connected; so is what is left
            # of the plane without (some of) its holes
            sp.connected(lambda v: v[b] == 'I' and un(v) == 'E', True,
                         finite, views)
            sp.axioms.append(sp.some(lambda v: v[b] == 'I'
                                     and un(v) == 'E'))
            for h in hs:
                sp.connected(lambda v, h=h: v[h] == 'E', True, finite, views)
                sp.connected(lambda v, h=h: v[b] == 'I' and v[h] == 'E',
                             True, finite, views)
            sp.connected(lambda v: un(v) == 'E', True, finite, views)
        for n in names:
            if n not in multi:
                for val in 'IBE':
                    sp.connected(lambda v: v[n] == val, val != 'B', finite,
                                 views)
        sp.axioms = [z3.simplify(sp.all())]
        return sp

    def _pick(self, who):
        kind, name = who
        if kind == 'picked':
            return T.view(name + '1')
        return self.views[name]

    def _relation(self, t, g, r):
        sp = self.space
        table = (sp.linear if t[1] in self.k.linear else sp.areal)(
            self._pick(t), self._pick(g))
        return table[r.name]

    def _scan(self, sp, s):
        imp = implied()
        y = self.views[s.other] if s.other is not None else None
        one, two = s.name + '1', s.name + '0'
        if self.split[s.name] == 'now':
            # the part at hand is a region, the others are left open
            sp.region(one, [(one, two)])
            if s.rel is not None:
                sp.axioms.append(sp.areal(T.view(one), y)[s.rel.name])
            return
        for n, took in ((one, True), (two, False)):
            rels = [r for r, t in s.seen if t is took]
            sp.axioms.append(
                sp.some(lambda v: v[n] == 'I') if rels
                else z3.Not(sp.some(lambda v: v[n] != 'E')))
            if not rels:
                continue
            for a in 'IB':
                for b in 'IBE':
                    cell = sp.some(lambda v: v[n] == a and y(v) == b)
                    if any((a, b) in imp[r][1] for r in rels):
                        sp.axioms.append(cell)
                    if all((a, b) in imp[r][2] or not imp[r][0]
                           for r in rels):
                        sp.axioms.append(z3.Not(cell))
            for b in 'IBE':
                if any(('E', b) in imp[r][2] for r in rels):
                    sp.axioms.append(z3.Not(sp.some(
                        lambda v: v[n] == 'E' and y(v) == b)))
            if any(not imp[r][0] for r in rels):
                sp.axioms.append(z3.BoolVal(False))


_judged = {}


def judge(c, k, v, polygons, tests, test, goal, linear=False):
    """The answer is the relation of every configuration that agrees with
    what the path learnt (decided once for what was learnt)."""
    label = k.label
    filled = {s.name: c.branch(s.seq.n > 0) for s in k.scans}
    key = (label, v.name, tuple(sorted(filled.items())), tuple(k.facts),
           tuple((s.name, s.runs, s.seen, s.rel, s.took, s.cur is None,
                  s.other) for s in k.scans))
    if key not in _judged:
        _judged[key] = _judge(c, k, v, polygons, tests, test, goal, linear,
                              filled)
    status, what, detail = _judged[key]
    if status == 'stop':
        raise Stop
    c._record(label + what, status, detail)
    c.cover('%s returns %s' % (label, v.name))


def _judge(c, k, v, polygons, tests, test, goal, linear, filled):
    m = Model(k, polygons, tests, filled)
    sp = m.space
    sol = z3.Solver()
    sol.set('timeout', c.timeout)
    sol.add(sp.all())
    t0 = time.time()
    r = sol.check()
    c.queries += 1
    table = (sp.linear if linear else sp.areal)(m.views[test], m.views[goal])
    if v.name not in table:
        return 'failed', ': an answer for these kinds', v.name
    if r == z3.unsat:
        return 'stop', None, None
    sol.add(z3.Not(table[v.name]))
    r = sol.check()
    c.queries += 1
    c.solver_s += time.time() - t0
    what = ': %s only if it is so' % v.name
    if r == z3.unsat:
        c.backends['z3'] = c.backends.get('z3', 0) + 1
        return 'discharged', what, None
    if r == z3.unknown:
        return 'undecided', what, 'solver answered unknown'
    model = sol.model()
    return 'failed', what, 'answer %s, relations %s, loops %s; inhabited: ' \
        '%s' % (
            v.name, [(t, g, x.name) for t, g, x in k.facts],
            [(s.name, sorted(s.seen), s.rel and s.rel.name)
             for s in k.scans if s.runs],
            ' '.join('/'.join('%s=%s' % i for i in cell.items())
                     for cell, x in zip(sp.cells, sp.var)
                     if z3.is_true(model.eval(x))))


ASSUMED = ['axioms on cells of valid geometries (pyvc/specs/topology.py): '
           'closures, finitely many common points of boundaries, connected '
           'interiors, exteriors and boundaries of regions, connected '
           'interior of polygons (checked on random samples by '
           'lemmas.axioms)']


def group(tk, only=None):
    label = 'polygon.relate_' + tk

    def run(M):
        e = Engine(label, functions=[label])
        install(M)
        fn = getattr(M.polygon, 'relate_' + tk)

        def harness(c):
            k = c.note['kit'] = Kit(c, label)
            k.only = only
            k.linear = ('T',) if tk == 'contour' else ()
            goal = k.polygon('g')
            polygons, tests = ['g'], ['T']
            if tk == 'polygon':
                test = k.polygon('t')
                polygons, tests = ['g', 't'], []
            elif tk == 'multiregion':
                test = k.many('T', 1)
            else:
                test = k.one('T')
            kind, v = c.outcome(fn, goal, test, k.ctx)
            if kind == 'raise':
                c.prove(False, label + ': no exception', repr(v))
            c.prove(isinstance(v, Relation), label + ': returns a relation',
                    repr(v))
            judge(c, k, v, polygons, tests, 't' if tk == 'polygon' else 'T',
                  'g', tk == 'contour')
        s = e.explore(harness).summary()
        s['assumed'] = ASSUMED
        return s
    return run


GROUPS = {'wrap.polygon.' + t: group(t)
          for t in ('contour', 'region', 'multiregion')}
SHARDS = [('WITHIN',), ('ENCLOSED',), ('COVER',), ('ENCLOSES',)]
SHARDS.append(tuple(n for n in NAMES if (n,) not in SHARDS))
GROUPS.update(('wrap.polygon.polygon.%d' % i, group('polygon', o))
              for i, o in enumerate(SHARDS))
