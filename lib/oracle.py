"""Exact reference semantics of the relations, independent of /repo.

Geometries are plain data (kind, payload) with exact rational coordinates:
  ('segment', (p, q))            ('multisegment', [(p, q), ...])
  ('contour', [p, ...])          ('region', [p, ...])
  ('multiregion', [[p, ...]...]) ('polygon', (border, [hole, ...]))
  ('multipolygon', [(border, holes), ...])
The reference decides a relation by decomposing the plane into the cells
(vertices, edges, faces) of the arrangement of all edges of both geometries
and classifying one sample point of every cell.
"""
from fractions import Fraction as F
from functools import cmp_to_key

LINEAR = ('segment', 'multisegment', 'contour')
AREAL = ('region', 'multiregion', 'polygon', 'multipolygon')


def ring_edges(vs):
    return [(vs[i - 1], vs[i]) for i in range(len(vs))]


def edges(g):
    kind, d = g
    if kind == 'segment':
        return [d]
    if kind == 'multisegment':
        return list(d)
    if kind in ('contour', 'region'):
        return ring_edges(d)
    if kind == 'multiregion':
        return [e for r in d for e in ring_edges(r)]
    if kind == 'polygon':
        b, hs = d
        return ring_edges(b) + [e for h in hs for e in ring_edges(h)]
    if kind == 'multipolygon':
        return [e for b, hs in d for r in [b] + list(hs)
                for e in ring_edges(r)]
    raise ValueError(kind)


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def on_segment(p, a, b):
    return (cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def seg_points(a, b, c, d):
    """Points at which segment cd meets segment ab (ends of an overlap)."""
    res = set()
    for p in (c, d):
        if on_segment(p, a, b):
            res.add(p)
    for p in (a, b):
        if on_segment(p, c, d):
            res.add(p)
    if not res:
        r = (b[0] - a[0], b[1] - a[1])
        s = (d[0] - c[0], d[1] - c[1])
        den = r[0] * s[1] - r[1] * s[0]
        if den:
            t = F((c[0] - a[0]) * s[1] - (c[1] - a[1]) * s[0], 1) / den
            u = F((c[0] - a[0]) * r[1] - (c[1] - a[1]) * r[0], 1) / den
            if 0 < t < 1 and 0 < u < 1:
                res.add((a[0] + t * r[0], a[1] + t * r[1]))
    return res


def locate(g, p):
    """'B' on the edges, else 'I'/'E' by the even-odd rule (areal) or 'E'."""
    es = edges(g)
    for a, b in es:
        if on_segment(p, a, b):
            return 'B'
    if g[0] in LINEAR:
        return 'E'
    return 'I' if _odd(es, p) else 'E'


def _odd(es, p):
    x, y = p
    res = False
    for a, b in es:
        if (a[1] > y) != (b[1] > y):
            # is the crossing to the right of p?
            c = cross(a, b, p)
            if (c > 0) == (b[1] > a[1]):
                res = not res
    return res


def cells(g, h):
    """Set of (class in g, class in h, dimension) + zero-cells with points."""
    eg, eh = edges(g), edges(h)
    alle = [(a, b) if a < b else (b, a) for a, b in eg + eh]
    ng = len(eg)
    n = len(alle)
    pts = [set(e) for e in alle]
    for i in range(n):
        a, b = alle[i]
        for j in range(i + 1, n):
            c, d = alle[j]
            if (max(a[0], c[0]) > min(b[0], d[0])
                    or max(min(a[1], b[1]), min(c[1], d[1]))
                    > min(max(a[1], b[1]), max(c[1], d[1]))):
                continue
            ps = seg_points(a, b, c, d)
            pts[i] |= ps
            pts[j] |= ps
    # sub-edges with the set of owners
    sub = {}
    verts = {}
    for i in range(n):
        chain = sorted(pts[i])
        m = 1 if i < ng else 2
        for p in chain:
            verts[p] = verts.get(p, 0) | m
        for p, q in zip(chain, chain[1:]):
            sub[p, q] = sub.get((p, q), 0) | m
    ag, ah = g[0] in AREAL, h[0] in AREAL
    res = set()
    zero = {}

    def cls(areal, on, odd):
        return 'B' if on else ('I' if areal and odd else 'E')

    # faces and non-vertical one-cells through slabs
    xs = sorted({p[0] for p in verts})
    nonvert = [(p, q, m) for (p, q), m in sub.items() if p[0] != q[0]]
    # multiplicity parity of edges per geometry
    par = {}
    for i in range(n):
        chain = sorted(pts[i])
        k = 0 if i < ng else 1
        for p, q in zip(chain, chain[1:]):
            v = par.setdefault((p, q), [0, 0])
            v[k] ^= 1
    for x0, x1 in zip(xs, xs[1:]):
        mid = F(x0 + x1, 1) / 2
        act = []
        for p, q, m in nonvert:
            if p[0] <= x0 and q[0] >= x1:
                y = p[1] + F(q[1] - p[1], 1) * (mid - p[0]) / (q[0] - p[0])
                act.append((y, m, par[p, q]))
        act.sort(key=lambda t: t[0])
        og = oh = 0
        res.add(('E', 'E', 2))
        for y, m, (pg, ph) in act:
            # distinct sub-edges never share a mid-slab point
            res.add((cls(ag, m & 1, og), cls(ah, m & 2, oh), 1))
            og ^= pg
            oh ^= ph
            res.add((cls(ag, 0, og), cls(ah, 0, oh), 2))
    for (p, q), m in sub.items():
        if p[0] == q[0]:
            mid = (p[0], F(p[1] + q[1], 1) / 2)
            res.add(('B' if m & 1 else
                     ('I' if ag and _odd(eg, mid) else 'E'),
                     'B' if m & 2 else
                     ('I' if ah and _odd(eh, mid) else 'E'), 1))
    for p, m in verts.items():
        c = ('B' if m & 1 else ('I' if ag and _odd(eg, p) else 'E'),
             'B' if m & 2 else ('I' if ah and _odd(eh, p) else 'E'), 0)
        res.add(c)
        zero[p] = c
    return res, zero, sub


def _half(v):
    return 0 if (v[1] > 0 or (v[1] == 0 and v[0] > 0)) else 1


def _angle_cmp(u, v):
    hu, hv = _half(u), _half(v)
    if hu != hv:
        return hu - hv
    c = u[0] * v[1] - u[1] * v[0]
    return -1 if c > 0 else (1 if c < 0 else 0)


def crosses_at(p, sub):
    """Rays of the two geometries alternate around the common vertex."""
    rays = []
    for (a, b), m in sub.items():
        if a == p:
            rays.append(((b[0] - a[0], b[1] - a[1]), m))
        elif b == p:
            rays.append(((a[0] - b[0], a[1] - b[1]), m))
    rays.sort(key=cmp_to_key(lambda s, t: _angle_cmp(s[0], t[0])))
    labels = [m for _, m in rays]
    changes = sum(labels[i - 1] != labels[i] for i in range(len(labels)))
    return changes >= 4


def relate(test, goal):
    """Expected relation name of ``test`` to ``goal``."""
    if not edges(test) or not edges(goal):
        return 'DISJOINT'
    cs, zero, sub = cells(test, goal)
    s = {(a, b) for a, b, _ in cs}
    tl, gl = test[0] in LINEAR, goal[0] in LINEAR
    if tl and gl:
        if ('B', 'B', 1) in cs:
            t_sub = ('B', 'E') not in s
            g_sub = ('E', 'B') not in s
            return ('EQUAL' if t_sub and g_sub else 'COMPONENT' if t_sub
                    else 'COMPOSITE' if g_sub else 'OVERLAP')
        common = [p for p, c in zero.items() if c[0] == 'B' and c[1] == 'B']
        if not common:
            return 'DISJOINT'
        return ('CROSS' if any(crosses_at(p, sub) for p in common)
                else 'TOUCH')
    if tl:
        i, b, e = (('B', 'I') in s, ('B', 'B') in s, ('B', 'E') in s)
        if i:
            return 'CROSS' if e else 'ENCLOSED' if b else 'WITHIN'
        return ('TOUCH' if b else 'DISJOINT') if e else 'COMPONENT'
    t_sub = ('I', 'E') not in s and ('B', 'E') not in s
    g_sub = ('E', 'I') not in s and ('E', 'B') not in s
    if ('I', 'I') not in s:
        return 'TOUCH' if ('B', 'B') in s else 'DISJOINT'
    if t_sub and g_sub:
        return 'EQUAL'
    if t_sub:
        return ('WITHIN' if ('B', 'B') not in s
                else 'COMPONENT' if ('B', 'I') not in s else 'ENCLOSED')
    if g_sub:
        return ('COVER' if ('B', 'B') not in s
                else 'COMPOSITE' if ('I', 'B') not in s else 'ENCLOSES')
    return 'OVERLAP'


# --------------------------------------------------------------- validity

def valid_ring(vs):
    n = len(vs)
    if n < 3 or len(set(vs)) < n:
        return False
    for i in range(n):
        if cross(vs[i - 2], vs[i - 1], vs[i]) == 0:
            return False
    es = ring_edges(vs)
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                continue
            if seg_points(*es[i], *es[j]):
                return False
    return True


def valid_multisegment(segs):
    for i, (a, b) in enumerate(segs):
        if a == b:
            return False
        for c, d in segs[i + 1:]:
            ps = seg_points(a, b, c, d)
            if len(ps) > 1:
                return False
            for p in ps:
                if p not in (a, b, c, d):
                    return False
    return True


def valid_multiregion(rs):
    return (all(map(valid_ring, rs))
            and all(relate(('region', r), ('region', q))
                    in ('DISJOINT', 'TOUCH')
                    and ('B', 'B', 1) not in cells(('region', r),
                                                   ('region', q))[0]
                    for i, r in enumerate(rs) for q in rs[i + 1:]))


def valid_polygon(border, holes):
    if not valid_ring(border) or not valid_multiregion(holes):
        return False
    for h in holes:
        if relate(('region', h), ('region', border)) not in ('WITHIN',
                                                             'ENCLOSED'):
            return False
        if ('B', 'B', 1) in cells(('region', h), ('region', border))[0]:
            return False
    return connected_interior([border] + list(holes))


def connected_interior(rings):
    """The rings and their common points make no cycle."""
    points = {}
    for i, r in enumerate(rings):
        for j in range(i):
            for e in ring_edges(r):
                for f in ring_edges(rings[j]):
                    for p in seg_points(*e, *f):
                        points.setdefault(p, set()).update((i, j))
    root = {}

    def find(x):
        while root.get(x, x) != x:
            x = root[x]
        return x
    for p, on in points.items():
        for i in on:
            a, b = find(('p', p)), find(('r', i))
            if a == b:
                return False
            root[a] = b
    return True


def valid_multipolygon(ps):
    return (all(valid_polygon(*p) for p in ps)
            and all(relate(('polygon', p), ('polygon', q))
                    in ('DISJOINT', 'TOUCH')
                    and ('B', 'B', 1) not in cells(('polygon', p),
                                                   ('polygon', q))[0]
                    for i, p in enumerate(ps) for q in ps[i + 1:]))
