"""Contracts of the building blocks: delegation, boxes, edges, alignment."""
import z3

from ..engine import Engine, Fold, ISeq, SInt, SSeq
from ..model import *  # noqa

CW, CCW = Orientation.CLOCKWISE, Orientation.COUNTERCLOCKWISE


# ------------------------------------------------- the public functions

class Opaque:
    """Anything: no operation but identity is available."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name

    def _no(self, *a, **k):
        raise Undecided('the function looks into ' + self.name)
    __eq__ = __ne__ = __lt__ = __le__ = __bool__ = __iter__ = _no
    __len__ = __getitem__ = __contains__ = _no
    __hash__ = object.__hash__

    def __getattr__(self, k):
        raise Undecided('the function looks into %s.%s' % (
            object.__getattribute__(self, 'name'), k))


KINDS = ('segment', 'multisegment', 'contour', 'region', 'multiregion',
         'polygon', 'multipolygon')


def public():
    from lib.real import PAIRS
    res = [('point', k) for k in KINDS]
    return res + PAIRS


def planar(M):
    """Every public function hands its arguments over in the right roles."""
    import inspect
    e = Engine('planar', functions=['planar.%s_in_%s' % p
                                    for p in public()])
    for kind in KINDS:
        core = getattr(M, kind)
        for name, f in list(core.__dict__.items()):
            if (callable(f) and getattr(f, '__module__', '')
                    == core.__name__ and not name.startswith('_')
                    and (name.startswith('relate_')
                         or name == 'locate_point')):
                def rec(goal, test, context, kind=kind, name=name):
                    r = Opaque('result')
                    E.ctl().note.setdefault('calls', []).append(
                        (kind, name, goal, test, context, r))
                    return r
                sig = inspect.signature(f)
                rec.__signature__ = sig
                names = list(sig.parameters)

                def stub(*a, rec=rec, names=names, **k):
                    vals = dict(zip(names, a), **k)
                    return rec(*[vals[n] for n in names])
                M.stub(kind, name, stub)
    default = Opaque('default context')

    def get():
        c = E.ctl()
        c.note['asked'] = c.note.get('asked', 0) + 1
        return default
    import ground.base
    saved = ground.base.get_context
    for mod in M.all + [M.planar]:
        for k, v in list(mod.__dict__.items()):
            if v is saved:
                mod.__dict__[k] = get

    def harness(c):
        t, g = c.choose(public())
        name = '%s_in_%s' % (t, g)
        f = getattr(M.planar, name, None)
        label = 'planar.%s' % name
        if f is None:
            c.prove(False, label + ': exists')
        test, goal, own = Opaque('test'), Opaque('goal'), Opaque('own')
        explicit = c.choose((None, True, False))
        kw = {} if explicit is None else {'context': own if explicit
                                          else None}
        kind, v = c.outcome(f, test, goal, **kw)
        if kind == 'raise':
            c.prove(False, label + ': no exception', repr(v))
        calls = c.note.get('calls', [])
        c.prove(len(calls) == 1 and calls[0][5] is v,
                label + ': the answer of one decision is returned', calls)
        k, n, cg, ct, ctx, _ = calls[0]
        c.prove(k == g and n == ('locate_point' if t == 'point'
                                 else 'relate_' + t),
                label + ': decided by the goal and test kinds', (k, n))
        c.prove(cg is goal and ct is test, label + ': goal and test roles')
        c.prove(ctx is (own if explicit else default),
                label + ': the given context is used')
        c.prove(explicit is not True or not c.note.get('asked'),
                label + ': the default context is left alone')
        c.cover(label)
    ground.base.get_context = get
    try:
        return e.explore(harness)
    finally:
        ground.base.get_context = saved


# ------------------------------------------------------------------ boxes

def sym_box(c, name):
    a, b, d, e = (SReal(c.glob(name + k, z3.RealSort()))
                  for k in ('_min_x', '_max_x', '_min_y', '_max_y'))
    c.assume(a.e <= b.e)
    c.assume(d.e <= e.e)
    return G.Box(a, b, d, e)


def in_box(x, y, b):
    return z3.And(b.min_x.e <= x, x <= b.max_x.e, b.min_y.e <= y,
                  y <= b.max_y.e)


def boxes(M):
    e = Engine('box', functions=['box.disjoint_with'])
    label = 'box.disjoint_with'

    def harness(c):
        p, q = sym_box(c, 'g'), sym_box(c, 't')
        kind, v = c.outcome(M.box.disjoint_with, p, q)
        if kind == 'raise' or type(v) is not bool:
            c.prove(False, label + ': returns a boolean', repr(v))
        if v:
            x, y = c.fresh('x', z3.RealSort()), c.fresh('y', z3.RealSort())
            c.prove(z3.Not(z3.And(in_box(x, y, p), in_box(x, y, q))),
                    label + ': True only without a common point')
        else:
            def m(s, t, f):
                return z3.If(f(s, t), s, t)

            def lo(s, t):
                return z3.If(s > t, s, t)
            x = lo(p.min_x.e, q.min_x.e)
            y = lo(p.min_y.e, q.min_y.e)
            c.prove(z3.And(in_box(x, y, p), in_box(x, y, q)),
                    label + ': False only with a common point')
        c.cover('%s returns %s' % (label, v))
    return e.explore(harness)


# ----------------------------------------------------------- orientation

def contour_orientation(M):
    """The turn of a contour at its extreme vertex."""
    e = Engine('contour.orientation', functions=['contour.orientation'])
    label = 'contour.orientation'

    def harness(c):
        r = sym_contour(c, 'v')
        vs = r.vertices
        kind, v = c.outcome(M.contour.orientation, r, VContext())
        if kind == 'raise':
            c.prove(False, label + ': no exception', repr(v))
        ext = c.note.get('extremes', [])
        c.prove(len(ext) == 1, label + ': looks at one extreme vertex')
        name, it, key, k, x = ext[0]
        at = x if it is vs or key is None and it is vs else None
        pos = k if it is vs else x.e if isinstance(x, SInt) else None
        if pos is None:
            raise Undecided('what the extreme is taken of')
        c.prove(it is vs and key is None
                or getattr(key, '__self__', None) is vs
                or key_is_element(c, key, vs),
                label + ': the extreme is taken of all vertices in '
                'lexicographic order')
        c.prove(it is vs or z3.And(it.n == vs.n),
                label + ': all vertices are looked at')
        p = pos
        if c.branch(p == 0):
            prv = vs.at(z3.simplify(vs.n - 1))
        else:
            prv = vs.at(z3.simplify(p - 1))
        if c.branch(p == vs.n - 1):
            nxt = vs.at(z3.IntVal(0))
        else:
            nxt = vs.at(z3.simplify(p + 1))
        d = det(prv, vs.at(p), nxt)
        want = (d > 0 if v is CCW else d < 0 if v is CW else d == 0)
        c.prove(want, label + ': the turn at the extreme vertex',
                getattr(v, 'name', v))
        c.cover('%s returns %s' % (label, getattr(v, 'name', v)))
    s = e.explore(harness).summary()
    s['assumed'] = ['theorem: a simple contour turns at its lexicographically'
                    ' extreme vertex the way it is oriented',
                    'min/max of a sequence by a key return an element with '
                    'an extreme key (CPython)']
    return s


def key_is_element(c, key, vs):
    """The key function maps any index to the vertex there."""
    if key is None:
        return False
    i = c.fresh('any', z3.IntSort())
    c.assume(z3.And(i >= 0, i < vs.n))
    return key(SInt(i)) is vs.at(i)


# -------------------------------------------------------- lists of edges

MODES = ('k', 'k+1', 'n-1-k', 'n-2-k')


def position(c, mode, k, n):
    p = {'k': k, 'k+1': k + 1, 'n-1-k': n - 1 - k, 'n-2-k': n - 2 - k}[mode]
    p = z3.simplify(p)
    if mode == 'k+1' and c.branch(p == n):
        return z3.IntVal(0)
    if mode == 'n-2-k' and c.branch(p < 0):
        return z3.simplify(n - 1)
    return p


def consume(it, judge):
    """Counts what an iterable gives; every item is judged."""
    k, state = E.Counter(), None
    for item in it:
        state = judge(item, k.e, state)
        k.e = z3.simplify(k.e + 1)
    return k.e


def edge_ends(c, vs, p):
    """The ends of the edge that leads to the vertex at the position."""
    if c.branch(p == 0):
        return vs.at(z3.simplify(vs.n - 1)), vs.at(p)
    return vs.at(z3.simplify(p - 1)), vs.at(p)


def judge_edges(c, vs, label, forward):
    """Item k is edge number k in one fixed enumeration of all edges.

    forward: True/False for a required direction, None for any.
    """
    def judge(item, k, state):
        a, b = item
        kt = k
        if state is None:
            state = MODES
        left = []
        for mode in state:
            p = position(c, mode, kt, vs.n)
            s, t = edge_ends(c, vs, p)
            fits = (a is s and b is t and forward is not False
                    or a is t and b is s and forward is not True)
            if fits:
                left.append(mode)
        c.prove(bool(left), label + ': item k is the k-th edge'
                + ('' if forward is None else ' in the right direction'))
        return tuple(left)
    return judge


def contour_edges(M):
    e = Engine('contour.to_edges_endpoints',
               functions=['contour.to_edges_endpoints'])
    label = 'contour.to_edges_endpoints'

    def harness(c):
        r = sym_contour(c, 'v')
        vs = r.vertices
        kind, v = c.outcome(lambda: consume(
            M.contour.to_edges_endpoints(r),
            judge_edges(c, vs, label, None)))
        if kind == 'raise':
            c.prove(False, label + ': no exception', repr(v))
        c.prove(v == vs.n, label + ': all edges are given')
        c.cover(label + ' ends')
    return e.explore(harness)


def contour_oriented(M):
    e = Engine('contour.to_oriented_edges_endpoints',
               functions=['contour.to_oriented_edges_endpoints'])
    label = 'contour.to_oriented_edges_endpoints'

    def orient(contour, context):
        c = E.ctl()
        c.prove(contour is c.note['r'], label + ': orientation of it')
        return c.note['o']
    M.stub('contour', 'orientation', orient)

    def harness(c):
        r = sym_contour(c, 'v')
        vs = r.vertices
        c.note['r'] = r
        o = c.note['o'] = c.choose((CW, CCW))
        cw = c.choose((None, False, True))
        args = () if cw is None else (cw,)
        kind, v = c.outcome(lambda: consume(
            M.contour.to_oriented_edges_endpoints(r, VContext(), *args),
            judge_edges(c, vs, label, (o is CCW) is not bool(cw))))
        if kind == 'raise':
            c.prove(False, label + ': no exception', repr(v))
        c.prove(v == vs.n, label + ': all edges are given')
        c.cover('%s: %s' % (label, o.name))
    return e.explore(harness)


def segments_endpoints(M):
    e = Engine('multisegment.to_segments_endpoints',
               functions=['multisegment.to_segments_endpoints'])
    label = 'multisegment.to_segments_endpoints'

    def harness(c):
        n = c.glob('n_s', z3.IntSort())
        c.assume(n >= 1)
        ss = SSeq('s', n, lambda p: G.Segment(fresh_point(c, 'a'),
                                              fresh_point(c, 'b')))

        def judge(item, k, state):
            a, b = item
            s = ss.at(k)
            c.prove(a is s.start and b is s.end
                    or a is s.end and b is s.start,
                    label + ': item k is the k-th segment')
        kind, v = c.outcome(lambda: consume(
            M.multisegment.to_segments_endpoints(G.Multisegment(ss)),
            judge))
        if kind == 'raise':
            c.prove(False, label + ': no exception', repr(v))
        c.prove(v == n, label + ': all segments are given')
        c.cover(label + ' ends')
    return e.explore(harness)


class Tag:
    """The edges of a part with the required side of its interior."""
    __slots__ = ('part', 'cw')

    def __init__(self, part, cw):
        self.part, self.cw = part, cw

    def __pyvc_describe__(self, env):
        return ('tag', env.describe(self.part), self.cw)


class Part:
    __slots__ = ('name', 'data')

    def __init__(self, name):
        self.name, self.data = name, None

    def __pyvc_describe__(self, env):
        return ('part', self.name)


def tags(c, ctx, label):
    def give(part, context, clockwise=False):
        c.prove(context is ctx, label + ': passes the context on')
        return [Tag(part, bool(clockwise))]
    return give


def _compound_edges(M, fn, label, setup):
    e = Engine(label, functions=[label])

    def harness(c):
        c.note['ctx'] = ctx = VContext()
        cw = c.choose((None, False, True))
        args = () if cw is None else (cw,)
        arg, want, total = setup(c, bool(cw))

        def judge(item, k, state):
            t, flag = want(k)
            c.prove(item.part is t, label + ': parts one by one')
            c.prove(item.cw is flag, label + ': side of the interior')
        kind, v = c.outcome(lambda: consume(fn(arg, ctx, *args), judge))
        if kind == 'raise':
            c.prove(False, label + ': no exception', repr(v))
        c.prove(v == total, label + ': all parts are given')
        c.cover(label + ' ends')
    return e.explore(harness)


def _stub_tags(M, module, name, label):
    def give(part, context, clockwise=False):
        c = E.ctl()
        c.prove(context is c.note['ctx'], label + ': passes the context on')
        return [Tag(part, bool(clockwise))]
    M.stub(module, name, give)


def multiregion_edges(M):
    label = 'multiregion.to_oriented_edges_endpoints'
    _stub_tags(M, 'contour', 'to_oriented_edges_endpoints', label)

    def setup(c, cw):
        n = c.glob('n_r', z3.IntSort())
        c.assume(n >= 0)
        rs = SSeq('r', n, lambda p: Part('region'))
        return rs, lambda k: (rs.at(k), cw), n
    return _compound_edges(M, M.multiregion.to_oriented_edges_endpoints,
                           label, setup)


def multipolygon_edges(M):
    label = 'multipolygon.to_oriented_segments'
    _stub_tags(M, 'polygon', 'to_oriented_edges_endpoints', label)

    def setup(c, cw):
        n = c.glob('n_p', z3.IntSort())
        c.assume(n >= 1)
        ps = SSeq('p', n, lambda p: Part('polygon'))
        return G.Multipolygon(ps), lambda k: (ps.at(k), cw), n
    return _compound_edges(M, M.multipolygon.to_oriented_segments, label,
                           setup)


def polygon_edges(M):
    label = 'polygon.to_oriented_edges_endpoints'
    _stub_tags(M, 'contour', 'to_oriented_edges_endpoints', label)

    def setup(c, cw):
        n = c.glob('n_h', z3.IntSort())
        c.assume(n >= 0)
        hs = SSeq('h', n, lambda p: Part('hole'))
        b = Part('border')

        def want(k):
            if c.branch(k == 0):
                return b, cw
            return hs.at(z3.simplify(k - 1)), not cw
        return G.Polygon(b, hs), want, n + 1
    return _compound_edges(M, M.polygon.to_oriented_edges_endpoints, label,
                           setup)


# ------------------------------------------------------------ equality

def contours_equal(M):
    """Equal exactly when the vertices align after a turn or a flip."""
    e = Engine('contour.equal', functions=['contour.equal'])
    label = 'contour.equal'

    def orient(contour, context):
        return E.ctl().note['orient'][id(contour)]
    M.stub('contour', 'orientation', orient)

    def harness(c):
        l, r = sym_contour(c, 'l'), sym_contour(c, 'r')
        a, b = l.vertices, r.vertices
        ol, orr = c.choose((CW, CCW)), c.choose((CW, CCW))
        c.note['orient'] = {id(l): ol, id(r): orr}
        c.note['contours'] = l, r
        same_way = ol is orr

        def step(s, p):
            i = b.found
            q = z3.simplify(i + p if same_way else i - p)
            if c.branch(q >= a.n):
                q = z3.simplify(q - a.n)
            elif c.branch(q < 0):
                q = z3.simplify(q + a.n)
            x, y = a.at(p), b.at(q)
            return s and (x is y or c.branch(same(x, y)))
        c.folds[a.n.get_id()] = Fold(True, step)
        kind, v = c.outcome(M.contour.equal, l, r, VContext())
        if kind == 'raise' or type(v) is not bool:
            c.prove(False, label + ': returns a boolean', repr(v))
        run = c.fold_run.get(a.n.get_id())
        done = c.fold_done.get(a.n.get_id())
        if v:
            c.prove(a.n == b.n, label + ': True only for equal sizes')
            c.prove(done is True, label + ': True only if all vertices '
                    'align')
        elif not (c.branch(a.n != b.n) or getattr(b, 'absent', None)):
            c.prove(run is False, label + ': False only if some vertices '
                    'do not align')
        c.cover('%s returns %s' % (label, v))
    s = e.explore(harness).summary()
    s['assumed'] = ['contours without collinear consecutive vertices that '
                    'cover the same points have the same cyclic sequences '
                    'of vertices up to direction; a turn keeps and a flip '
                    'changes the orientation']
    return s


GROUPS = {'planar': planar, 'box': boxes,
          'contour.orientation': contour_orientation,
          'contour.edges': contour_edges,
          'contour.oriented': contour_oriented,
          'multisegment.edges': segments_endpoints,
          'multiregion.edges': multiregion_edges,
          'polygon.edges': polygon_edges,
          'multipolygon.edges': multipolygon_edges,
          'contour.equal': contours_equal}
