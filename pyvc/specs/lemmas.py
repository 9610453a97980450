"""Lemmas over the contracts: what the properties say follows from the
formulas which the contracts use (pyvc/specs/topology.py, process.py)."""
import itertools

import z3

from ..engine import Engine
from ..model import *  # noqa
from . import process as P
from . import topology as T
from .wrap import DROPPED

R = Relation
N, A, Or, imp = z3.Not, z3.And, z3.Or, z3.Implies


def pair_space():
    s = T.Space(['t', 'g'])
    s.closure()
    for n in 'tg':
        s.axioms.append(s.some(lambda v: v[n] == 'I'))
    return s, s.areal(T.view('t'), T.view('g'))


def line_space():
    """A linear test (class B on it) and an areal goal."""
    s = T.Space(['t', 'g'], lambda v: v['t'] != 'I')
    s.axioms.append(s.some(lambda v: v['t'] == 'B'))
    return s, s.linear(T.view('t'), T.view('g'))


def lemma(name, body, assumed=()):
    def run(M):
        e = Engine('lemmas.' + name, functions=[])
        s = e.explore(lambda c: body(c, M)).summary()
        s['assumed'] = list(assumed)
        return s
    return run


def swap(f):
    g = dict(f)
    for k in f:
        if k.startswith('test '):
            g[k], g['goal' + k[4:]] = f['goal' + k[4:]], f[k]
    g['left test'], g['left goal'] = f['left goal'], f['left test']
    return g


TABLES = {'open': (False, P.open_linear), 'closed': (True, P.closed_linear),
          'compound': (True, P.compound),
          'linear_compound': (True, P.linear_compound)}


def converse(c, M):
    """Exchanging test and goal gives the converse relation."""
    case = c.choose(list(TABLES)[:3] + ['areal'])
    if case == 'areal':
        s, t = pair_space()
        u = s.areal(T.view('g'), T.view('t'))
        c.assume(s.all())
        for r in t:
            c.prove(t[r] == u[R[r].complement.name],
                    'converse of %s of two areas' % r)
        return
    compound, table = TABLES[case]
    f, ax = P.model(compound)
    t, more = table(f)
    u, _ = table(swap(f))
    c.assume(A(ax + more))
    for r in t:
        c.prove(t[r] == u[r.complement], 'converse of %s of a sweep (%s)'
                % (r.name, case))


def total(c, M):
    """Exactly one relation of the kinds holds."""
    case = c.choose(list(TABLES) + ['areal', 'linear'])
    if case in TABLES:
        compound, table = TABLES[case]
        f, ax = P.model(compound)
        t, more = table(f)
        c.assume(A(ax + more))
    else:
        s, t = pair_space() if case == 'areal' else line_space()
        c.assume(s.all())
    fs = list(t.values())
    c.prove(Or(fs), 'some relation holds (%s)' % case)
    for x, y in itertools.combinations(t, 2):
        c.prove(N(A(t[x], t[y])), 'one relation at a time (%s)' % case)
    names = {getattr(k, 'name', k) for k in t}
    allowed = {'open': {'DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'COMPONENT',
                        'COMPOSITE', 'EQUAL'},
               'linear': {'DISJOINT', 'TOUCH', 'CROSS', 'COMPONENT',
                          'ENCLOSED', 'WITHIN'},
               'areal': {'DISJOINT', 'TOUCH', 'OVERLAP', 'COVER', 'ENCLOSES',
                         'COMPOSITE', 'EQUAL', 'COMPONENT', 'ENCLOSED',
                         'WITHIN'}}
    allowed['closed'] = allowed['open']
    allowed['compound'] = allowed['areal']
    allowed['linear_compound'] = allowed['linear']
    c.prove(names <= allowed[case], 'only relations of the kinds (%s)'
            % case, names - allowed[case])


def locations(c, M):
    """C09, C12, C14: relations against the classes of points."""
    if c.choose(('areal', 'linear')) == 'areal':
        s, t = pair_space()
        c.assume(s.all())

        def some(p):
            return s.some(p)
        common = some(lambda v: v['t'] != 'E' and v['g'] != 'E')
        c.prove(t['DISJOINT'] == N(common), 'DISJOINT exactly if there is no '
                'common point')
        c.prove(imp(t['TOUCH'], N(some(
            lambda v: v['t'] == 'I' and v['g'] != 'E'
            or v['g'] == 'I' and v['t'] != 'E'))),
            'TOUCH: no inner point of one set is in the other')
        c.prove(t['EQUAL'] == N(some(lambda v: v['t'] != v['g'])),
                'EQUAL exactly if all points are of the same class')
        for names, x, y in ((('EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN'),
                             't', 'g'),
                            (('EQUAL', 'COMPOSITE', 'ENCLOSES', 'COVER'),
                             'g', 't')):
            leaves = some(lambda v: v[x] != 'E' and v[y] == 'E')
            c.prove(Or([t[n] for n in names]) == N(leaves),
                    '%s exactly if a subset' % ', '.join(names))
            c.prove(imp(t[names[3]], N(some(
                lambda v: v[x] != 'E' and v[y] != 'I'))),
                '%s: in the interior' % names[3])
        for n in t:
            if n not in ('DISJOINT', 'TOUCH'):
                c.prove(imp(t[n], some(lambda v: v['t'] == 'I'
                                       and v['g'] == 'I')),
                        'common inner points unless DISJOINT or TOUCH')
    else:
        s, t = line_space()
        c.assume(s.all())
        for k, names in (('I', ('CROSS', 'ENCLOSED', 'WITHIN')),
                         ('E', ('CROSS', 'TOUCH', 'DISJOINT'))):
            c.prove(Or([t[n] for n in names]) == s.some(
                lambda v: v['t'] == 'B' and v['g'] == k),
                'relations of a line with points of class ' + k)
        c.prove(t['DISJOINT'] == N(s.some(
            lambda v: v['t'] == 'B' and v['g'] != 'E')),
            'a line is DISJOINT exactly if there is no common point')
        c.prove(imp(t['COMPONENT'], N(s.some(
            lambda v: v['t'] == 'B' and v['g'] != 'B'))),
            'a line is COMPONENT of an area exactly if on its boundary')


def dropped(c, M):
    """Parts of the goal with a box apart from the test's do no harm."""
    if c.choose(('areal', 'linear')) == 'areal':
        s = T.Space(['t', 'k', 'd'], lambda v: T.side_by_side(v['k'], v['d']))
        s.closure()
        s.finite('k', 'd')
        for n in 'tkd':
            s.axioms.append(s.some(lambda v: v[n] == 'I'))
            s.axioms.append(s.some(lambda v: v[n] == 'B'))
        s.axioms.append(s.apart('t', 'd'))
        t, u = s.areal(T.view('t'), T.view('k')), s.areal(
            T.view('t'), T.union('k', 'd'))
        c.assume(s.all())
        for r in t:
            w = DROPPED.get(R[r], R[r]).name
            c.prove(imp(t[r], u[w]), '%s is %s with further parts' % (r, w))
    else:
        s = T.Space(['t', 'k', 'd'], lambda v: v['t'] != 'I'
                    and T.side_by_side(v['k'], v['d']))
        s.axioms.append(s.some(lambda v: v['t'] == 'B'))
        s.axioms.append(s.apart('t', 'd'))
        t, u = s.linear(T.view('t'), T.view('k')), s.linear(
            T.view('t'), T.union('k', 'd'))
        c.assume(s.all())
        for r in t:
            c.prove(imp(t[r], u[r]), '%s of a line with further parts' % r)


def edges(c, M):
    """What edge pieces say about the sets which they bound."""
    f, ax = P.model(True)
    t, more = P.compound(f)
    II, IE, EI = z3.Bools('II IE EI')
    ti, to, gi, go = (f[k] for k in P.IN_OUT)
    same, diff = f['test same'], f['test different']
    to, go = Or(to, f['left test']), Or(go, f['left goal'])
    # both sides of an edge piece
    for piece, sides in ((ti, (II, EI)), (to, (IE,)), (gi, (II, IE)),
                         (go, (EI,)), (same, (II,)), (diff, (IE, EI))):
        ax.append(imp(piece, A(sides)))
    # an open set of points other than the plane has an edge around it
    ax += [imp(II, Or(ti, gi, same)), imp(IE, Or(to, gi, diff)),
           imp(EI, Or(go, ti, diff))]
    ax += more
    meet = Or(f['TOUCH'], f['CROSS'], f['OVERLAP'])
    c.assume(A(ax))
    ts, gs = N(IE), N(EI)
    want = {'DISJOINT': A(N(II), N(meet)), 'TOUCH': A(N(II), meet),
            'EQUAL': A(II, ts, gs),
            'WITHIN': A(II, ts, N(gs), N(meet)),
            'COMPONENT': A(II, ts, N(gs), meet, N(ti)),
            'ENCLOSED': A(II, ts, N(gs), meet, ti),
            'COVER': A(II, gs, N(ts), N(meet)),
            'COMPOSITE': A(II, gs, N(ts), meet, N(gi)),
            'ENCLOSES': A(II, gs, N(ts), meet, gi),
            'OVERLAP': A(II, N(ts), N(gs))}
    for r, x in t.items():
        c.prove(x == want[r.name], '%s by the pieces of the edges' % r.name)


GROUPS = {
    'lemmas.converse': lemma('converse', converse),
    'lemmas.total': lemma('total', total),
    'lemmas.locations': lemma('locations', locations, [
        'near a boundary point of a valid area there are inner points and '
        'outer points (lemmas.*)']),
    'lemmas.dropped': lemma('dropped', dropped, [
        'geometries whose bounding boxes are apart have no common point']),
    'lemmas.edges': lemma('edges', edges, [
        'sets bounded by edges: an edge piece has both sides, an open cell '
        'other than the plane has an edge around it (lemmas.edges)'])}
