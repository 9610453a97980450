"""Random geometries made by adding and removing rectangles: holes, islands in
holes, parts beside one another; the other geometry is made of the same ones.
"""
from . import cells as C, oracle as O


def rect(r, w, h):
    x, y = r.randrange(w), r.randrange(h)
    u, v = r.randrange(x, w), r.randrange(y, h)
    return {(i, j) for i in range(x, u + 1) for j in range(y, v + 1)}


def scene(r, w, h):
    a = set()
    k = r.choice((1, 2, 3, 4, 5, 6))
    for i in range(k):
        b = rect(r, w, h)
        if r.random() < .55 or not a:
            a |= b
        else:
            a -= b
    return a


def frame(w, h, d):
    return {(i, j) for i in range(d, w - d) for j in range(d, h - d)}


def onion(r, w, h):
    """Rings within rings."""
    a, d = set(), r.randrange(2)
    on = r.random() < .7
    while 2 * d < min(w, h):
        if on:
            a |= frame(w, h, d)
        else:
            a -= frame(w, h, d)
        d += r.choice((1, 1, 2))
        on = not on
    return a


def around(a):
    return {(x + i, y + j) for x, y in a for i in (-1, 0, 1)
            for j in (-1, 0, 1)}


def within(a):
    return {(x, y) for x, y in a if all(
        (x + i, y + j) in a for i in (-1, 0, 1) for j in (-1, 0, 1))}


def finer(a, k=3):
    return {(k * x + i, k * y + j) for x, y in a for i in range(k)
            for j in range(k)}


def holes(a):
    """Bounded parts of the complement."""
    if not a:
        return []
    xs, ys = [x for x, _ in a], [y for _, y in a]
    out = {(x, y) for x in range(min(xs) - 1, max(xs) + 2)
           for y in range(min(ys) - 1, max(ys) + 2)} - a
    corner = (min(xs) - 1, min(ys) - 1)
    return [c for c in C.components(out) if corner not in c]


def some(r, parts):
    k = r.randrange(1, len(parts) + 1)
    return set().union(*r.sample(parts, k))


def relative(r, a, w, h):
    """An area which has something to do with the other one."""
    c = r.random()
    hs = holes(a)
    cs = C.components(a)
    if c < .15:
        return some(r, cs)
    if c < .35 and hs:
        return some(r, hs)
    if c < .45 and hs:
        return a | some(r, hs)
    if c < .55 and hs:
        return some(r, cs) | some(r, hs)
    if c < .65:
        return a | rect(r, w, h)
    if c < .75:
        return a - rect(r, w, h)
    if c < .85:
        return rect(r, w, h)
    if c < .92:
        return a ^ rect(r, w, h)
    return scene(r, w, h)


def lines(r, a, w, h):
    """Pieces along the edges of an area and through the grid."""
    res = []
    ps = C.polygons(a) or []
    rings = [x for b, hs in ps for x in [b] + hs]
    r.shuffle(rings)
    for ring in rings[:r.randrange(0, 3)]:
        for p, q in O.ring_edges(ring):
            n = max(abs(q[0] - p[0]), abs(q[1] - p[1]))
            if r.random() < .25:
                continue
            i = r.randrange(n) if r.random() < .3 else 0
            j = r.randrange(i + 1, n + 1) if r.random() < .4 else n

            def at(t):
                return (p[0] + (q[0] - p[0]) * t // n,
                        p[1] + (q[1] - p[1]) * t // n)
            res.append((at(i), at(j)))
            if j < n and r.random() < .5:
                res.append((at(j), at(n)))
    for _ in range(r.randrange(0, 4) if res else r.randrange(2, 6)):
        s = chord(r, w, h)
        if O.valid_multisegment(res + [s]):
            res.append(s)
    return res


def chord(r, w, h):
    while True:
        a = (r.randrange(w + 1), r.randrange(h + 1))
        c = r.random()
        b = ((a[0], r.randrange(h + 1)) if c < .3 else
             (r.randrange(w + 1), a[1]) if c < .6 else
             (r.randrange(w + 1), r.randrange(h + 1)))
        if a != b:
            return a, b


def shape(r, kind, a, w, h):
    if kind == 'segment':
        if r.random() < .5:
            ls = lines(r, a, w, h)
            if ls:
                return r.choice(ls)
        return chord(r, w, h)
    if kind == 'multisegment':
        ls = [(p, q) if r.random() < .5 else (q, p)
              for p, q in lines(r, a, w, h)]
        r.shuffle(ls)
        ls = ls[:8]
        return ls if len(ls) > 1 and O.valid_multisegment(ls) else None
    if kind in ('contour', 'region', 'multiregion') and r.random() < .3:
        hs = holes(a)
        if hs:
            a = some(r, hs)
    return C.shape(r, kind, a)


def warp(r, n):
    xs, x = [], 0
    for _ in range(n):
        xs.append(x)
        x += r.choice((1, 1, 1, 2, 5))
    return xs


def pair(r, tk, gk, valid, mapped):
    w, h = r.choice(((3, 3), (5, 5), (7, 5), (4, 7), (7, 7), (6, 6)))
    a = onion(r, w, h) if r.random() < .3 else scene(r, w, h)
    if not a:
        return None
    b = relative(r, a, w, h)
    c = r.random()
    if c < .25:
        a, b = finer(a), finer(b)
        w, h = 3 * w, 3 * h
        if r.random() < .5:
            b = within(b)
        else:
            b = around(b)
        w, h = w + 1, h + 1
    if r.random() < .5:
        a, b = b, a
    if not a or not b:
        return None
    t, g = shape(r, tk, a, w, h), shape(r, gk, b, w, h)
    if not t or not g:
        return None
    t, g = (tk, t), (gk, g)
    if sum(len(O.edges(x)) for x in (t, g)) > 60:
        return None
    if r.random() < .5:
        xs, ys = warp(r, w + 4), warp(r, h + 4)

        def f(p):
            return xs[p[0] + 1], ys[p[1] + 1]
        if tk not in ('segment', 'multisegment') and gk not in (
                'segment', 'multisegment'):
            t, g = mapped(t, f), mapped(g, f)
    return (t, g) if valid(t) and valid(g) else None


# ------------------------------------------------------ pieces of common lines

def pieces(r, k):
    """Disjoint intervals of 0..k (ends may be common)."""
    cuts = sorted(r.sample(range(k + 1), r.randrange(2, min(k, 6) + 2)))
    keep = r.choice((.5, .8, 1))
    res = [(cuts[i], cuts[i + 1]) for i in range(len(cuts) - 1)
           if r.random() < keep]
    return res


def collinear(r, tk, gk, valid):
    """Linear geometries (test: any kind) on the same one or two lines."""
    k = r.choice((4, 6, 8))
    d = r.choice(((1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (-1, 3)))
    e = r.choice(((0, 1), (1, 0), (1, 2), (-1, 1)))
    if d[0] * e[1] == d[1] * e[0]:
        return None
    hosts = [((0, 0), d)]
    if r.random() < .5:
        o = r.randrange(0, k + 1)
        hosts.append(((d[0] * o - e[0] * r.choice((0, 0, 2)),
                       d[1] * o - e[1] * r.choice((0, 0, 2))), e))

    def on(host, t):
        (x, y), (u, v) = host
        return x + u * t, y + v * t

    def make(kind):
        if kind == 'segment':
            i = r.randrange(k)
            j = r.randrange(i + 1, k + 1)
            if r.random() < .5:
                i, j = 0, k
            s = on(hosts[0], i), on(hosts[0], j)
            return s if r.random() < .5 else s[::-1]
        if kind == 'multisegment':
            res = []
            for host in hosts:
                for i, j in pieces(r, k):
                    s = on(host, i), on(host, j)
                    s = s if r.random() < .5 else s[::-1]
                    if O.valid_multisegment(res + [s]):
                        res.append(s)
            for _ in range(r.choice((0, 0, 1, 2))):
                p = on(r.choice(hosts), r.randrange(k + 1))
                q = (p[0] + r.randrange(-2, 3), p[1] + r.randrange(-2, 3))
                if p != q and O.valid_multisegment(res + [(p, q)]):
                    res.append((p, q))
            r.shuffle(res)
            return res
        # a comb: its contour runs along the line several times
        ps = pieces(r, k)
        if not ps:
            return None
        s = r.choice((1, -1))
        a, b = hosts[0], ((s * e[0], s * e[1]), d)
        c = ((2 * s * e[0], 2 * s * e[1]), d)
        ring = []
        for n, (i, j) in enumerate(ps):
            ring += [on(b, i), on(a, i), on(a, j), on(b, j)]
        if ps[-1][1] - ps[0][0] < 1:
            return None
        ring += [on(c, ps[-1][1]), on(c, ps[0][0])]
        out = []
        for p in ring:
            if out and out[-1] == p:
                continue
            out.append(p)
        ch = True
        while ch and len(out) > 3:
            ch = False
            for i in range(len(out)):
                if (out[i - 1] == out[i] or O.cross(
                        out[i - 2], out[i - 1], out[i]) == 0):
                    del out[i - 1]
                    ch = True
                    break
        if len(out) < 3:
            return None
        out = C.turn(r, out)
        if kind in ('contour', 'region'):
            return out
        if kind == 'multiregion':
            return [out]
        return (out, []) if kind == 'polygon' else [(out, [])]
    t, g = make(tk), make(gk)
    if not t or not g:
        return None
    t, g = (tk, t), (gk, g)
    return (t, g) if valid(t) and valid(g) else None
