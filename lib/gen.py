"""Seeded random generators of valid geometries on small integer grids."""
from . import oracle as O


def pt(r, n):
    return (r.randrange(n), r.randrange(n))


def ring(r, n, kmax=7, tries=200, lo=(0, 0)):
    for _ in range(tries):
        k = r.choice((3, 3, 4, 4, 5, 6, 7))
        if k > kmax:
            k = kmax
        vs = list({(lo[0] + x, lo[1] + y)
                   for x, y in (pt(r, n) for _ in range(k))})
        r.shuffle(vs)
        if len(vs) < 3:
            continue
        # untangle by 2-opt moves
        for _ in range(30):
            m = len(vs)
            for i in range(m - 1):
                for j in range(i + 2, m):
                    if i == 0 and j == m - 1:
                        continue
                    a, b, c, d = vs[i], vs[i + 1], vs[j], vs[(j + 1) % m]
                    if O.seg_points(a, b, c, d):
                        vs[i + 1:j + 1] = vs[i + 1:j + 1][::-1]
                        break
                else:
                    continue
                break
            else:
                break
        # drop collinear vertices
        ch = True
        while ch and len(vs) >= 3:
            ch = False
            for i in range(len(vs)):
                if O.cross(vs[i - 2], vs[i - 1], vs[i]) == 0:
                    del vs[i - 1]
                    ch = True
                    break
        if O.valid_ring(vs):
            if r.random() < .5:
                vs.reverse()
            j = r.randrange(len(vs))
            return vs[j:] + vs[:j]
    return [lo, (lo[0] + n - 1, lo[1]), (lo[0], lo[1] + n - 1)]


def segment(r, n):
    while True:
        a, b = pt(r, n), pt(r, n)
        if a != b:
            return a, b


def multisegment(r, n, k=None):
    k = k or r.choice((2, 2, 3, 4, 5, 7))
    res = []
    while True:
        s = segment(r, n)
        if r.random() < .4 and res:
            t = r.choice(r.choice(res))
            if t != s[1]:
                s = (t, s[1])
        if O.valid_multisegment(res + [s]):
            res.append(s)
            if len(res) == k:
                return res
        elif len(res) >= 2 and r.random() < .1:
            return res


def multiregion(r, n, k=None):
    k = k or r.choice((1, 2, 2, 3))
    res = []
    for _ in range(12 * k):
        c = (ring(r, n, 5) if r.random() < .5 else
             ring(r, max(2, n // 2 + 1), 5, lo=(r.randrange(n - n // 2),
                                                r.randrange(n - n // 2))))
        if O.valid_multiregion(res + [c]):
            res.append(c)
            if len(res) == k:
                break
    r.shuffle(res)
    return res


def polygon(r, n, kh=None, tries=25):
    kh = r.choice((0, 1, 1, 2)) if kh is None else kh
    if r.random() < .4:
        m = n - 1
        border = [(0, 0), (m, 0), (m, m), (0, m)]
        if r.random() < .5:
            border.reverse()
    else:
        border = ring(r, n)
    holes = []
    for _ in range(tries * kh):
        h = ring(r, max(2, n - 1 - r.randrange(n - 2)), 4,
                 lo=pt(r, max(1, n - 2)))
        if O.valid_polygon(border, holes + [h]):
            holes.append(h)
            if len(holes) == kh:
                break
    return border, holes


def multipolygon(r, n, k=None):
    k = k or r.choice((1, 2, 2, 3))
    res = []
    for _ in range(8 * k):
        if r.random() < .3 and res and res[0][1]:
            # something inside a hole
            p = (r.choice(res[0][1]), [])
        else:
            p = polygon(r, n, r.choice((0, 0, 1)), 5)
        if O.valid_multipolygon(res + [p]):
            res.append(p)
            if len(res) == k:
                break
    r.shuffle(res)
    return res


GEN = {'segment': segment, 'multisegment': multisegment, 'contour': ring,
       'region': ring, 'multiregion': multiregion, 'polygon': polygon,
       'multipolygon': multipolygon}


def _rings(g):
    kind, d = g
    if kind in ('contour', 'region'):
        return [d]
    if kind == 'multiregion':
        return list(d)
    if kind == 'polygon':
        return [d[0]] + list(d[1])
    if kind == 'multipolygon':
        return [x for p in d for x in [p[0]] + list(p[1])]
    return []


def valid(g):
    kind, d = g
    return {'segment': lambda: d[0] != d[1],
            'multisegment': lambda: len(d) > 1 and O.valid_multisegment(d),
            'contour': lambda: O.valid_ring(d),
            'region': lambda: O.valid_ring(d),
            'multiregion': lambda: O.valid_multiregion(d),
            'polygon': lambda: O.valid_polygon(*d),
            'multipolygon': lambda: O.valid_multipolygon(d)}[kind]()


def derived(r, kind, other, n):
    """A geometry of the given kind built from parts of the other one."""
    es = O.edges(other)
    rings = _rings(other)
    try:
        if kind == 'segment':
            a, b = r.choice(es)
            c = r.random()
            if c < .3:
                s = (a, pt(r, n))
            elif c < .5:
                s = (a, b)
            elif c < .7:
                s = (r.choice(r.choice(es)), r.choice(r.choice(es)))
            elif c < .85:
                s = (a, (2 * b[0] - a[0], 2 * b[1] - a[1]))
            else:
                s = ((2 * a[0] - b[0], 2 * a[1] - b[1]),
                     (2 * b[0] - a[0], 2 * b[1] - a[1]))
            return s if s[0] != s[1] else None
        if kind == 'multisegment':
            k = r.randrange(1, len(es) + 1)
            res = []
            for s in (es if r.random() < .3 else r.sample(es, k)):
                if r.random() < .4:
                    s = (s[1], s[0])
                if O.valid_multisegment(res + [s]):
                    res.append(s)
            for _ in range(r.randrange(0, 4)):
                s = segment(r, n)
                if O.valid_multisegment(res + [s]):
                    res.append(s)
            r.shuffle(res)
            return res
        if not rings:
            return None
        c = r.choice(rings)
        if r.random() < .4:
            c = c[::-1]
        if r.random() < .5 and len(c) > 3:
            i = r.randrange(len(c))
            c = c[:i] + c[i + 1:]
        elif r.random() < .3:
            i = r.randrange(len(c))
            c = c[:i] + [pt(r, n)] + c[i:]
        elif r.random() < .3:
            i = r.randrange(len(c))
            c = c[:i] + [pt(r, n)] + c[i + 1:]
        if kind in ('contour', 'region'):
            return c
        if kind == 'multiregion':
            res = ([c] if r.random() < .5
                   else r.sample(rings, r.randrange(1, len(rings) + 1)))
            extra = ring(r, n, 4)
            if r.random() < .6 and O.valid_multiregion(res + [extra]):
                res = res + [extra]
            if r.random() < .3:
                res = [x for x in res]
                r.shuffle(res)
            return res
        if kind == 'polygon':
            if r.random() < .5:
                border, holes = c, []
            else:
                border = r.choice(rings)
                holes = [x for x in rings if x is not border
                         and r.random() < .7]
            for _ in range(r.randrange(0, 4)):
                h = ring(r, max(2, n - 2), 4, lo=(r.randrange(2),
                                                  r.randrange(2)))
                if O.valid_polygon(border, holes + [h]):
                    holes = holes + [h]
            return border, holes
        if kind == 'multipolygon':
            if other[0] == 'multipolygon':
                d = other[1]
                res = r.sample(list(d), r.randrange(1, len(d) + 1))
            else:
                p = derived(r, 'polygon', other, n)
                if p is None:
                    return None
                res = [p]
            q = polygon(r, n, 0)
            if O.valid_multipolygon(res + [q]):
                res = res + [q]
            return res
    except (IndexError, ValueError):
        return None


def geometry(r, kind, n):
    return kind, GEN[kind](r, n)


def pair(r, tk, gk, n):
    g = geometry(r, gk, n)
    if r.random() < .55:
        for _ in range(6):
            t = derived(r, tk, g, n)
            if t and valid((tk, t)):
                return (tk, t), g
    return geometry(r, tk, n), g
