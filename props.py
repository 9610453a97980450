"""Which obligations and which bounded searches belong to which property."""
LP = ['segment', 'multisegment', 'contour']
AP = ['region', 'multiregion', 'polygon', 'multipolygon']
PAIRS = [('segment', 'segment'), ('segment', 'multisegment'),
         ('multisegment', 'multisegment'), ('segment', 'contour'),
         ('multisegment', 'contour'), ('contour', 'contour')]
PAIRS += [(t, g) for g in AP for t in LP]
PAIRS += [('region', 'region'), ('region', 'multiregion'),
          ('multiregion', 'multiregion'), ('region', 'polygon'),
          ('multiregion', 'polygon'), ('polygon', 'polygon'),
          ('region', 'multipolygon'), ('multiregion', 'multipolygon'),
          ('polygon', 'multipolygon'), ('multipolygon', 'multipolygon')]
POINTS = [('point', k) for k in LP + AP]
LIKE = [p for p in PAIRS if p[0] == p[1]]


def pairs(tests, goals):
    return [p for p in PAIRS if p[0] in tests and p[1] in goals]


# prefixes of obligation groups
LOC_L = ['locate.segment', 'locate.multisegment', 'locate.contour']
LOC_A = ['locate.segment', 'locate.region', 'locate.multiregion',
         'locate.polygon', 'locate.multipolygon']
LOC = LOC_L + LOC_A[1:]
EVENTS = ['events.register', 'events.order', 'events.sweep_order',
          'events.position']
EV_LIN = EVENTS + ['events.detect_linear']
EV_COMP = EVENTS + ['events.detect_compound']
EDGES = ['contour.orientation', 'contour.edges', 'contour.oriented',
         'multisegment.edges', 'multiregion.edges', 'polygon.edges',
         'multipolygon.edges']
EQUALITY = ['contour.equal']
SEGMENT = ['segment']
SWEEP = ['sweep']
LOOPS = ['sweep.loop']
ANGLES = ['angles', 'sweep.loop.linear']
MEANING = ['segment.relate', 'segment.meaning']
LINEAR = ['linear.classes', 'linear.table', 'linear.turns',
          'process.linear_open', 'process.linear_closed']
# a segment against the edges of a contour and segments of a multisegment
PARTS = ['linear.contour', 'linear.pieces']
HEAVY = ['linear.pieces.kept.c0', 'linear.pieces.kept.c1',
         'linear.pieces.complete']      # to start with


def wraps(tests, goals):
    return ['wrap.%s.%s' % (g, t) for t, g in pairs(tests, goals)]


def mode(name, ps):
    return [(name, {'pairs': ps}, 1)]


def over(name, tests, goals):
    return [(name, {'pairs': pairs(tests, goals)}, 1)]


MR, PG = ['region', 'multiregion'], ['polygon', 'multipolygon']

PROPS = {
    'C01': (LOC_L + ['planar'], [('locate', {'kinds': LP}, 1)]),
    'C02': (LOC_A + ['planar'], [('locate', {'kinds': AP}, 1)]),
    'C03': (['planar', 'lemmas.dropped'] + SEGMENT + LINEAR
            + PARTS + wraps(['segment'], LP), over('relate', ['segment'], LP)),
    'C04': (['planar', 'box', 'contour', 'multisegment', 'lemmas.dropped']
            + EV_LIN + SEGMENT + LINEAR + SWEEP + ['angles']
            + wraps(['multisegment', 'contour'], LP),
            over('relate', ['multisegment', 'contour'], LP)),
    'C05': (['planar', 'box', 'process.linear_compound'] + EV_COMP + SWEEP + EDGES
            + wraps(LP, MR), over('relate', LP, MR)),
    'C06': (['planar', 'box', 'process.linear_compound'] + EV_COMP + SWEEP + EDGES
            + wraps(LP, PG), over('relate', LP, PG)),
    'C07': (['planar', 'box', 'process.compound', 'lemmas.dropped',
             'lemmas.edges'] + EV_COMP + SWEEP + EDGES + EQUALITY
            + wraps(MR, MR), over('relate', MR, MR)),
    'C08': (['planar', 'box', 'process.compound', 'lemmas.dropped',
             'lemmas.edges'] + EV_COMP + SWEEP + EDGES + EQUALITY + wraps(AP, PG),
            over('relate', AP, PG)),
    'C09': (['planar', 'box', 'process', 'lemmas'] + LOOPS + EVENTS + EDGES
            + wraps(LP + AP, LP + AP), mode('disjoint', PAIRS)),
    'C10': (['planar', 'process', 'lemmas', 'angles'] + LOOPS + EV_LIN
            + ['events.detect_compound'] + wraps(LP, LP) + wraps(AP, AP),
            mode('converse', LIKE)),
    'C11': (['planar', 'box'] + EQUALITY + EDGES + LOC + EVENTS
            + ['events.detect_linear', 'events.detect_compound', 'angles']
            + LOOPS,
            mode('rewrite', PAIRS + POINTS)),
    'C12': (['planar', 'box', 'process', 'lemmas']
            + EQUALITY + wraps(LP, LP) + wraps(AP, AP),
            mode('equal', LIKE)),
    'C13': (['planar'] + EDGES + LOC + ['events.register']
            + wraps(LP + AP, LP + AP), mode('wrap', PAIRS + POINTS[2:6])),
    'C14': (['planar', 'lemmas'] + LOC + ['process'] + LINEAR + PARTS + MEANING,
            mode('points', PAIRS)),
    'C15': (['planar', 'process', 'lemmas', 'linear.contour', 'angles']
            + LINEAR + LOOPS
            + wraps(LP + AP, LP + AP), mode('admissible', PAIRS + POINTS)),
    'C16': (['planar', 'box', 'angles'] + LOOPS + EDGES + EQUALITY + LOC + EVENTS
            + wraps(LP + AP, LP + AP), mode('frame', PAIRS + POINTS)),
}
