"""Cell classes: a finite and complete abstraction of point sets.

Every point of the plane has a class (interior, boundary, exterior) in each
of a few sets; a cell is a vector of classes, a configuration says which
cells are inhabited.  Relations are formulas over configurations (their
definitions), the axioms below hold for all configurations of valid
geometries (regions bounded by simple closed curves, parts which meet in
finitely many points, polygons with connected interior).
"""
import itertools

import z3

I, B, X = 'I', 'B', 'E'


class Space:
    def __init__(self, names, feasible=lambda v: True, prefix=''):
        self.names = names
        self.cells = [v for v in (dict(zip(names, t)) for t in
                                  itertools.product((I, B, X),
                                                    repeat=len(names)))
                      if feasible(v)]
        self.var = [z3.Bool(prefix + ''.join(v[n] for n in names))
                    for v in self.cells]
        self.axioms = []
        # somewhere far away
        self.axioms.append(self.some(lambda v: all(v[n] == X
                                                   for n in names)))

    def some(self, pred):
        """Some inhabited cell satisfies the predicate."""
        return z3.Or([x for v, x in zip(self.cells, self.var) if pred(v)]
                     or [z3.BoolVal(False)])

    # ------------------------------------------------------------ axioms
    def closure(self):
        """Near a boundary point of a set there are points inside and
        points outside of it, off all the boundaries."""
        for v, x in zip(self.cells, self.var):
            bs = [n for n in self.names if v[n] == B]
            rest = [n for n in self.names if v[n] != B]
            for n in bs:
                for val in (I, X):
                    self.axioms.append(z3.Implies(x, self.some(
                        lambda w: w[n] == val
                        and all(w[m] != B for m in bs)
                        and all(w[m] == v[m] for m in rest))))

    def finite(self, m, n):
        """The boundaries of two sets meet in finitely many points."""
        for v, x in zip(self.cells, self.var):
            if v[m] == B and v[n] == B:
                rest = [k for k in self.names if v[k] != B]
                for a, b in ((m, n), (n, m)):
                    self.axioms.append(z3.Implies(x, self.some(
                        lambda w: w[a] == B and w[b] != B
                        and all(w[k] == v[k] for k in rest))))

    def region(self, n, finite=()):
        """Bounded by one simple closed curve."""
        for val in (I, B):
            self.axioms.append(self.some(lambda v: v[n] == val))
        for val in (I, B, X):
            self.connected(lambda v: v[n] == val, val != B, finite)

    def connected(self, z, open_, finite=(), views=()):
        """A connected set with points inside and outside of another one
        has points on its boundary - and an open one has so many that they
        are not all on another boundary which meets it finitely often."""
        ys = [(lambda v, n=n: v[n], n) for n in self.names]
        for y, n in ys + [(f, None) for f in views]:
            both = z3.And(self.some(lambda v: z(v) and y(v) == I),
                          self.some(lambda v: z(v) and y(v) == X))
            others = [set(p) - {n} for p in finite if n in p]
            others = set().union(*others) if others and open_ else set()
            for m in list(others) + [None]:
                self.axioms.append(z3.Implies(both, self.some(
                    lambda v: z(v) and y(v) == B
                    and (m is None or v[m] != B))))
        if open_:
            # removing finitely many points leaves it connected
            for m, n in finite:
                self.axioms.append(z3.Implies(
                    z3.And(self.some(lambda v: z(v) and v[m] == I),
                           self.some(lambda v: z(v) and v[n] == I)),
                    self.some(lambda v: z(v) and v[m] == X
                              and v[n] == X)
                    if not self.nested(m, n) else z3.BoolVal(True)))

    def nested(self, m, n):
        """Interiors of the two sets may meet."""
        return any(v[m] == I and v[n] == I for v in self.cells)

    def apart(self, m, n):
        """No common point."""
        return z3.Not(self.some(lambda v: v[m] != X and v[n] != X))

    def all(self):
        return z3.And(self.axioms)

    # --------------------------------------------------------- relations
    def areal(self, t, g):
        """Relation name -> formula, for two views."""
        def e(a, b):
            return self.some(lambda v: t(v) == a and g(v) == b)
        ii, bb, bi, ib = e(I, I), e(B, B), e(B, I), e(I, B)
        ts = z3.Not(z3.Or(e(I, X), e(B, X)))
        gs = z3.Not(z3.Or(e(X, I), e(X, B)))
        N, A = z3.Not, z3.And
        return {
            'DISJOINT': A(N(ii), N(bb)), 'TOUCH': A(N(ii), bb),
            'EQUAL': A(ii, ts, gs),
            'WITHIN': A(ii, ts, N(gs), N(bb)),
            'COMPONENT': A(ii, ts, N(gs), bb, N(bi)),
            'ENCLOSED': A(ii, ts, N(gs), bb, bi),
            'COVER': A(ii, gs, N(ts), N(bb)),
            'COMPOSITE': A(ii, gs, N(ts), bb, N(ib)),
            'ENCLOSES': A(ii, gs, N(ts), bb, ib),
            'OVERLAP': A(ii, N(ts), N(gs))}

    def linear(self, t, g):
        """t gives the class of points on the curve (B) and off it (E)."""
        i, b, e = (self.some(lambda v: t(v) == B and g(v) == k)
                   for k in (I, B, X))
        N, A = z3.Not, z3.And
        return {'CROSS': A(i, e), 'ENCLOSED': A(i, N(e), b),
                'WITHIN': A(i, N(e), N(b)), 'TOUCH': A(N(i), e, b),
                'DISJOINT': A(N(i), e, N(b)), 'COMPONENT': A(N(i), N(e))}


def view(n):
    return lambda v: v[n]


def union(*ns):
    def f(v):
        cs = [v[n] for n in ns]
        return I if I in cs else B if B in cs else X
    return f


def difference(b, h):
    """Polygon with the border b and the holes h (views)."""
    def f(v):
        x, y = b(v), h(v)
        if x == X or y == I:
            return X
        return B if x == B or y == B else I
    return f


def in_border(x, y):
    """Classes of a point in the border and in one hole."""
    return not (x == X and y != X or x == B and y == I)


def side_by_side(x, y):
    return not (x == I and y != X or y == I and x != X)
