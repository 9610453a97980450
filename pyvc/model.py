"""The modules of /repo under verification and their symbolic inputs."""
import importlib
import os
import sys

import z3

REPO = os.environ.get('PYVC_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
for _p in (SITE, REPO):
    if _p not in sys.path:
        sys.path.insert(0, _p)

from ground.base import (Location, Orientation, Relation, get_context)  # noqa
from ground.core import geometries as G  # noqa

from . import engine as E  # noqa
from .engine import (ISeq, SInt, SReal, SSeq, Fold, Stop, Undecided)  # noqa

CORE = ('box', 'contour', 'enums', 'event', 'events_queue', 'multipolygon',
        'multiregion', 'multisegment', 'polygon', 'processing', 'region',
        'segment', 'sweep_line', 'utils')

REAL = get_context()


class Modules:
    """Freshly imported orient.core.* with the symbolic-aware builtins."""

    def __init__(self):
        for k in [k for k in sys.modules if k == 'orient'
                  or k.startswith('orient.')]:
            del sys.modules[k]
        importlib.invalidate_caches()
        self.bad, self.stubbed = {}, {}
        for m in CORE:
            mod = importlib.import_module('orient.core.' + m)
            assert os.path.realpath(mod.__file__).startswith(
                os.path.realpath(REPO)), mod.__file__
            setattr(self, m, mod)
        # every other module the package may have grown
        self.all = [v for k, v in sorted(sys.modules.items())
                    if k.startswith('orient.core.')]
        self.planar = importlib.import_module('orient.planar')
        self.original = {}
        for mod in self.all:
            for k, v in mod.__dict__.items():
                if callable(v) and getattr(v, '__module__', '') \
                        == mod.__name__:
                    self.original[mod.__name__.split('.')[-1], k] = v
        for mod in self.all:
            b = E.shadow(mod)
            if b:
                self.bad[mod.__name__] = b

    def __pyvc_describe__(self, env):
        return 'modules'

    def stub(self, module, name, repl):
        """Replace a function or class everywhere it is referenced."""
        f = self.original.get((module, name))
        if f is None:
            raise Undecided('%s.%s is gone' % (module, name))
        return self.replace(f, repl)

    def stub_again(self, module, name, repl):
        """Replaces what may be a stub of an earlier path."""
        f = self.stubbed.get((module, name))
        if f is None:
            self.stub(module, name, repl)
        else:
            self.replace(f, repl)
        self.stubbed[module, name] = repl

    def replace(self, f, repl):
        for mod in self.all + [self.planar]:
            for k, v in list(mod.__dict__.items()):
                if v is f:
                    mod.__dict__[k] = repl
        return f


class VContext:
    """The ground context: real exact arithmetic, sequences by contract."""
    segment_cls, point_cls = G.Segment, G.Point
    multisegment_cls, contour_cls = G.Multisegment, G.Contour
    polygon_cls, multipolygon_cls = G.Polygon, G.Multipolygon
    box_cls = G.Box

    def __pyvc_describe__(self, env):
        return 'context'

    # executed as they are
    def angle_orientation(self, a, b, c):
        return REAL.angle_orientation(a, b, c)

    def segment_contains_point(self, s, p):
        return REAL.segment_contains_point(s, p)

    def segments_relation(self, a, b):
        return REAL.segments_relation(a, b)

    def segments_intersection(self, a, b):
        return REAL.segments_intersection(a, b)

    # contracts
    def contour_segments(self, contour):
        vs = contour.vertices
        if not isinstance(vs, ISeq):
            return REAL.contour_segments(contour)
        n = vs.n
        return ISeq('edges_' + vs.name, n,
                    lambda p: G.Segment(vs[SInt(z3.simplify(p - 1))],
                                        vs.at(p)),
                    marks=vs.marks, vocab=vs.vocab, base=vs.bases())


def sym_point(c, name):
    return G.Point(SReal(c.glob(name + '_x', z3.RealSort())),
                   SReal(c.glob(name + '_y', z3.RealSort())))


def fresh_point(c, name):
    return G.Point(c.real(name + '_x'), c.real(name + '_y'))


def sym_contour(c, name, min_n=3, marks=()):
    n = c.glob('n_' + name, z3.IntSort())
    c.assume(n >= min_n)
    vs = SSeq(name, n, lambda p: fresh_point(c, name), marks=marks)
    return G.Contour(vs)


# ------------------------------------------------------ specification maths

def X(p):
    return p.x.e if isinstance(p.x, SReal) else E.lift(p.x)


def Y(p):
    return p.y.e if isinstance(p.y, SReal) else E.lift(p.y)


def det(o, a, b):
    return (X(a) - X(o)) * (Y(b) - Y(o)) - (Y(a) - Y(o)) * (X(b) - X(o))


def between(t, a, b):
    return z3.Or(z3.And(a <= t, t <= b), z3.And(b <= t, t <= a))


def on_closed(p, a, b):
    """The point belongs to the closed segment."""
    return z3.And(det(a, b, p) == 0, between(X(p), X(a), X(b)),
                  between(Y(p), Y(a), Y(b)))


def same(p, q):
    return z3.And(X(p) == X(q), Y(p) == Y(q))


def less(p, q):
    return z3.Or(X(p) < X(q), z3.And(X(p) == X(q), Y(p) < Y(q)))


def ray_crosses(p, a, b):
    """The edge crosses the open ray from the point to the right."""
    up = z3.And(Y(a) <= Y(p), Y(b) > Y(p), det(a, b, p) > 0)
    down = z3.And(Y(b) <= Y(p), Y(a) > Y(p), det(a, b, p) < 0)
    return z3.Or(up, down)
