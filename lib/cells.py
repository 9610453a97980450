"""Random geometries made of the cells of a small grid (many coincidences)."""
from . import oracle as O


def trace(cells):
    """Boundary rings of a set of unit cells (interior to the left)."""
    nxt = {}
    for x, y in cells:
        for (ax, ay), (bx, by), nb in (
                ((x, y), (x + 1, y), (x, y - 1)),
                ((x + 1, y), (x + 1, y + 1), (x + 1, y)),
                ((x + 1, y + 1), (x, y + 1), (x, y + 1)),
                ((x, y + 1), (x, y), (x - 1, y))):
            if nb not in cells:
                nxt.setdefault((ax, ay), []).append((bx, by))
    rings = []
    while nxt:
        start = min(nxt)
        ring = [start]
        prev = None
        cur = start
        while True:
            opts = nxt[cur]
            if len(opts) == 1 or prev is None:
                n = opts[0]
            else:
                # turn left at a pinch: keeps cells 4-connected
                d = (cur[0] - prev[0], cur[1] - prev[1])
                n = max(opts, key=lambda o: d[0] * (o[1] - cur[1])
                        - d[1] * (o[0] - cur[0]))
            opts.remove(n)
            if not opts:
                del nxt[cur]
            if n == start:
                break
            ring.append(n)
            prev, cur = cur, n
        # corners only
        ring = [ring[i] for i in range(len(ring))
                if O.cross(ring[i - 1], ring[i],
                           ring[(i + 1) % len(ring)]) != 0]
        rings.append(ring)
    return rings


def area(ring):
    return sum(ring[i - 1][0] * ring[i][1] - ring[i - 1][1] * ring[i][0]
               for i in range(len(ring)))


def components(cells):
    left, res = set(cells), []
    while left:
        todo = [left.pop()]
        comp = set(todo)
        while todo:
            x, y = todo.pop()
            for n in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)):
                if n in left:
                    left.discard(n)
                    comp.add(n)
                    todo.append(n)
        res.append(comp)
    return res


def polygons(cells):
    res = []
    for comp in components(cells):
        rings = trace(comp)
        borders = [r for r in rings if area(r) > 0]
        holes = [r for r in rings if area(r) < 0]
        if len(borders) != 1:
            return None
        res.append((borders[0], holes))
    return res


def blob(r, w, h):
    p = r.choice((.35, .5, .65, .8))
    return {(x, y) for x in range(w) for y in range(h) if r.random() < p}


def turn(r, ring):
    if r.random() < .4:
        ring = ring[::-1]
    k = r.randrange(len(ring))
    return ring[k:] + ring[:k]


def shape(r, kind, cells):
    """A geometry of the kind that covers (a part of) the cells, or None."""
    if kind in ('multisegment', 'segment'):
        es = sorted({tuple(sorted(e)) for x, y in cells for e in (
            ((x, y), (x + 1, y)), ((x, y), (x, y + 1)),
            ((x, y), (x + 1, y + 1)))})
        if not es:
            return None
        if kind == 'segment':
            return r.choice(es)
        es = r.sample(es, min(len(es), r.randrange(2, 9)))
        res = [(a, b) if r.random() < .5 else (b, a) for a, b in es]
        return res if len(res) > 1 and O.valid_multisegment(res) else None
    ps = polygons(cells)
    if not ps:
        return None
    r.shuffle(ps)
    ps = [(turn(r, b), [turn(r, h) for h in hs]) for b, hs in ps]
    if kind == 'multipolygon':
        return ps
    if kind == 'polygon':
        b, hs = max(ps, key=lambda p: len(p[1]) + r.random())
        r.shuffle(hs)
        return b, hs
    rings = [b for b, _ in ps]
    if kind in ('contour', 'region'):
        return max(rings, key=lambda x: len(x) + 3 * r.random())
    return rings


def pair(r, tk, gk, valid):
    w, h = r.choice(((3, 3), (4, 3), (4, 4), (5, 3), (5, 5), (6, 2)))
    a = blob(r, w, h)
    c = r.random()
    if c < .25:
        b = blob(r, w, h)
    elif c < .45:
        b = a - blob(r, w, h)
    elif c < .65:
        b = a | blob(r, w, h)
    elif c < .8:
        b = {(x, y) for x in range(w) for y in range(h)} - a
    else:
        b = a ^ set(r.sample(sorted(a), min(len(a), 2)))
    if r.random() < .5:
        a, b = b, a
    t, g = shape(r, tk, a), shape(r, gk, b)
    if t is None or g is None:
        return None
    t, g = (tk, t), (gk, g)
    return (t, g) if valid(t) and valid(g) else None
