#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props  # noqa

C = 'orient/core/'
Q = {'linear': 'every point and every valid segment, multisegment and '
               'contour with exact coordinates, of any number of vertices',
     'areal': 'every point and every valid region, multiregion, polygon and '
              'multipolygon with exact coordinates, of any size'}


def P(id_, title, statement, text, why, files, mechanism, over=('inputs',),
      observe=()):
    return {'id': id_, 'title': title, 'statement': statement,
            'quantifier': {'over': list(over), 'text': text},
            'why_tests_cant': why,
            'anchors': {'files': files,
                        'mechanism': [{'name': n, 'where': w}
                                      for n, w in mechanism],
                        'observe_at': list(observe) or [
                            'the return value of the public functions of '
                            'orient.planar']}}


SWEEP = [('event queues: registration, splitting at intersections, '
          'merging of overlaps', C + 'events_queue.py'),
         ('sweep line: order of the segments under the sweep, neighbours',
          C + 'sweep_line.py'),
         ('accumulation of the relation over the swept events',
          C + 'processing.py')]
AREAS = ['region.py', 'multiregion.py', 'polygon.py', 'multipolygon.py']
RANDOM = ('The tests draw random geometries of a few vertices, for which '
          'shared vertices, overlapping edges and degenerate contacts are '
          'rare, and compare answers with one another rather than with a '
          'definition; the claim is over ')

L = [
    P('C01', 'Point location in linear geometries is exact',
      'For a point and a segment, multisegment or contour the reported '
      'location is BOUNDARY exactly when the point lies on the geometry '
      '(end points and vertices included), and EXTERIOR otherwise. The '
      'location never depends on which segment, in which position and of '
      'which direction, holds the point.',
      Q['linear'],
      'Tests sample a few random points, of which almost none lies on a '
      'segment; the claim is over every point, segment position and number '
      'of segments.',
      [C + f for f in ('segment.py', 'multisegment.py', 'contour.py')],
      [('point in segment', C + 'segment.py'),
       ('any segment holds the point', C + 'multisegment.py'),
       ('any edge holds the point', C + 'contour.py')]),
    P('C02', 'Point location in regions and polygons is exact',
      'For a point and a region, multiregion, polygon or multipolygon the '
      'reported location is BOUNDARY exactly when the point lies on an edge '
      'of a border or hole, INTERIOR exactly when it is off all edges and '
      'inside of the set of points (inside of a border and of no hole of '
      'it), and EXTERIOR otherwise. It holds whatever the orientation and '
      'starting vertex of the borders and wherever the ray from the point '
      'meets vertices and horizontal edges.',
      Q['areal'],
      'Ray casting goes wrong only where the ray meets a vertex, a '
      'horizontal edge or a boundary between parts; random points miss '
      'them, and the number of edges is unbounded.',
      [C + f for f in AREAS],
      [('ray casting', C + 'region.py'),
       ('location in the parts', C + 'multiregion.py'),
       ('border, then holes', C + 'polygon.py'),
       ('location in the parts', C + 'multipolygon.py')]),
    P('C03', 'A segment against a linear geometry',
      'For a segment and a segment, multisegment or contour the reported '
      'relation is the one which the set-theoretic definitions assign to '
      'the two sets of points: DISJOINT, TOUCH, CROSS, OVERLAP, COMPOSITE, '
      'EQUAL or COMPONENT according to which common points, common '
      'one-dimensional pieces and pieces outside of one another there are, '
      'and to whether the lines pass through each other at a common point.',
      'every valid pair of a segment and a linear geometry, of any number '
      'of segments, in any position',
      RANDOM + 'all ways several segments cover, touch or cross one.',
      [C + f for f in ('segment.py', 'multisegment.py', 'contour.py',
                       'utils.py', 'events_queue.py', 'sweep_line.py',
                       'processing.py')],
      [('relation of two segments', C + 'segment.py'),
       ('segment against the parts, crossing angles',
        C + 'multisegment.py'),
       ('segment against the edges', C + 'contour.py')] + SWEEP),
    P('C04', 'Multisegments and contours against linear geometries',
      'For a multisegment or contour and a segment, multisegment or '
      'contour the reported relation is the one which the set-theoretic '
      'definitions assign to the two sets of points, with CROSS exactly '
      'when there are common points, no common one-dimensional piece and at '
      'some common point the angles of one geometry separate those of the '
      'other.',
      'every valid pair of linear geometries the library takes, of any '
      'number of segments',
      RANDOM + 'all pairs, with any number of edges meeting at a point.',
      [C + f for f in ('multisegment.py', 'contour.py', 'events_queue.py',
                       'sweep_line.py', 'processing.py')],
      [('set up of the sweep', C + 'multisegment.py'),
       ('set up of the sweep', C + 'contour.py'),
       ('crossing angles at a common point', C + 'events_queue.py')]
      + SWEEP),
    P('C05', 'Linear geometries against regions and multiregions',
      'For a segment, multisegment or contour and a region or multiregion '
      'the reported relation is DISJOINT, TOUCH, CROSS, COMPONENT, ENCLOSED '
      'or WITHIN as determined by which of the interior, the boundary and '
      'the exterior of the area points of the linear geometry lie in.',
      'every valid pair, of any number of segments and of regions',
      RANDOM + 'all pairs, including lines along borders and through '
      'vertices where regions meet.',
      [C + f for f in ('region.py', 'multiregion.py', 'events_queue.py',
                       'sweep_line.py', 'processing.py')],
      [('set up of the sweep', C + 'region.py'),
       ('skipping of distant regions', C + 'multiregion.py')] + SWEEP),
    P('C06', 'Linear geometries against polygons and multipolygons',
      'For a segment, multisegment or contour and a polygon or '
      'multipolygon the reported relation is DISJOINT, TOUCH, CROSS, '
      'COMPONENT, ENCLOSED or WITHIN as determined by which of the '
      'interior, the boundary and the exterior of the polygons points of '
      'the linear geometry lie in, where the inside of a hole belongs to '
      'the exterior.',
      'every valid pair, of any number of segments, polygons and holes',
      RANDOM + 'all pairs, including lines which pass from hole to hole '
      'and along the edges of holes.',
      [C + f for f in ('polygon.py', 'multipolygon.py', 'events_queue.py',
                       'sweep_line.py', 'processing.py')],
      [('set up of the sweep', C + 'polygon.py'),
       ('skipping of distant polygons', C + 'multipolygon.py')] + SWEEP),
    P('C07', 'Regions and multiregions against each other',
      'For two areas, each a region or multiregion, the reported relation '
      'is the one which the set-theoretic definitions assign: it is '
      'determined by which combinations of interior, boundary and exterior '
      'of the two sets of points are inhabited.',
      'every valid pair of a region or multiregion with a region or '
      'multiregion',
      RANDOM + 'all pairs, with shared edges, shared vertices and nested '
      'or side by side parts.',
      [C + f for f in ('region.py', 'multiregion.py', 'events_queue.py',
                       'sweep_line.py', 'processing.py')],
      [('equality, boxes, sweep', C + 'region.py'),
       ('skipping of distant regions', C + 'multiregion.py')] + SWEEP),
    P('C08', 'Areas against polygons and multipolygons',
      'For two areas of which at least one is a polygon or multipolygon '
      'the reported relation is the one which the set-theoretic '
      'definitions assign: it is determined by which combinations of '
      'interior, boundary and exterior of the two sets of points are '
      'inhabited, the inside of a hole being exterior.',
      'every valid pair of areas the library takes with a polygon or '
      'multipolygon as goal, of any number of polygons and holes',
      RANDOM + 'all pairs: holes filled exactly, holes which hold parts, '
      'holes which share edges and vertices.',
      [C + f for f in AREAS + ['events_queue.py', 'sweep_line.py',
                               'processing.py']],
      [('relation from those of the border and of the holes',
        C + 'polygon.py'),
       ('skipping of distant polygons', C + 'multipolygon.py')] + SWEEP),
    P('C09', 'DISJOINT exactly when there is no common point',
      'Every function which relates two geometries returns DISJOINT when '
      'no point belongs to both, and never when some point does. In '
      'particular leaving parts out because they are far from the other '
      'geometry never loses a common point, even a single one on the edge '
      'of a bounding box.',
      'every valid pair of kinds and geometries',
      'Random pairs are either far apart or overlap broadly; contacts at a '
      'single point on the edge of a box, and sweeps which may stop early, '
      'need exact coincidences.',
      [C + f for f in ['box.py', 'segment.py', 'multisegment.py',
                       'contour.py'] + AREAS + ['processing.py']],
      [('boxes', C + 'box.py'),
       ('skipping of distant parts', C + 'multiregion.py'),
       ('skipping of distant parts', C + 'multipolygon.py'),
       ('end of the sweep', C + 'processing.py')]),
    P('C10', 'Swapping the arguments gives the converse relation',
      'For two geometries of the same kind the relation of the second to '
      'the first is the converse of the relation of the first to the '
      'second: COVER and WITHIN, ENCLOSES and ENCLOSED, COMPOSITE and '
      'COMPONENT change places, the rest stays.',
      'every valid pair of two segments, multisegments, contours, regions, '
      'multiregions, polygons or multipolygons',
      'The tests do ask this of random pairs; asymmetric treatment shows '
      'only where parts are dropped, edges coincide or three and more '
      'edges meet.',
      [C + f for f in ['segment.py', 'multisegment.py', 'contour.py']
       + AREAS + ['processing.py', 'events_queue.py']],
      [('relations and their converses', C + 'processing.py'),
       ('both arguments in one sweep', C + 'events_queue.py')]),
    P('C11', 'The answer does not depend on the way a geometry is written',
      'Reversing or rotating vertices, reversing segments, permuting '
      'segments, regions, polygons or holes, and applying the same '
      'invertible affine map with exact coefficients to both arguments, '
      'leaves every location and every relation as it was.',
      'every valid pair of geometries, or point and geometry, and every '
      'such rewriting of either',
      'The tests reverse a few random inputs; the orders in which events '
      'tie, edges are vertical or parts come first are far too many to '
      'sample.',
      [C + f for f in ['contour.py', 'multisegment.py'] + AREAS
       + ['event.py', 'events_queue.py', 'sweep_line.py']],
      [('direction of the edges', C + 'contour.py'),
       ('order of events', C + 'events_queue.py'),
       ('order under the sweep line', C + 'sweep_line.py')]),
    P('C12', 'EQUAL exactly for the same set of points',
      'Two geometries of one kind are EQUAL exactly when they hold the '
      'same points; in particular each geometry is EQUAL to itself however '
      'it is written, and no proper part of it is.',
      'every valid pair of geometries of the same kind',
      'Equality is random inputs of measure zero except for a geometry '
      'and itself; near equal pairs (one vertex moved, one part more) are '
      'not drawn.',
      [C + f for f in ['contour.py', 'segment.py', 'multisegment.py']
       + AREAS + ['processing.py']],
      [('equality of contours', C + 'contour.py'),
       ('equality of polygons', C + 'polygon.py'),
       ('equality found by the sweep', C + 'processing.py')]),
    P('C13', 'The answer does not depend on the kind which holds the points',
      'A region, a multiregion of that region alone, a polygon with that '
      'border and no holes and a multipolygon of that polygon alone give '
      'the same locations and the same relations with everything else; '
      'likewise a multiregion and the multipolygon of its regions, and a '
      'contour and the multisegment of its edges.',
      'every valid geometry, its rewriting as another kind, and every '
      'valid other argument',
      'The kinds have separate code (shortcuts, order of arguments, '
      'dropped parts) which a few random equalities of answers do not '
      'cover.',
      [C + f for f in ['contour.py', 'multisegment.py'] + AREAS],
      [('shortcuts of the kinds', C + 'polygon.py'),
       ('shortcuts of the kinds', C + 'multipolygon.py'),
       ('shortcuts of the kinds', C + 'multiregion.py')]),
    P('C14', 'Relations agree with the locations of points',
      'No point contradicts a reported relation: under DISJOINT no point '
      'is in both geometries; under TOUCH no interior point of an area is '
      'in the other geometry; under EQUAL, COMPONENT, ENCLOSED and WITHIN '
      'every point of the first is in the second, in its interior for '
      'WITHIN; and the same the other way round for EQUAL, COMPOSITE, '
      'ENCLOSES and COVER.',
      'every valid pair of geometries and every point of the plane',
      'It speaks of all points of the plane for all pairs; tests try a '
      'handful of points.',
      [C + f for f in ['segment.py', 'multisegment.py', 'contour.py']
       + AREAS + ['processing.py']],
      [('locations', C + 'region.py'), ('relations', C + 'processing.py')]),
    P('C15', 'Every valid pair gets an answer its kinds allow',
      'Every public function returns, without an exception and without '
      'looping for ever, a location or relation which its kinds allow: two '
      'linear geometries are never ENCLOSED, WITHIN, ENCLOSES or COVER, a '
      'linear and an areal one are only DISJOINT, TOUCH, CROSS, COMPONENT, '
      'ENCLOSED or WITHIN, and two areal ones are never CROSS.',
      'every valid pair of geometries and every point',
      'Exceptions and endless loops of the sweep need particular '
      'coincidences of events, which random small inputs miss.',
      ['orient/planar.py'] + [C + f for f in [
          'segment.py', 'multisegment.py', 'contour.py'] + AREAS
          + ['events_queue.py', 'sweep_line.py', 'processing.py']],
      [('public functions', 'orient/planar.py')] + SWEEP),
    P('C16', 'Arguments stay as they were, calls repeat, context is obeyed',
      'No call changes its arguments; the same call gives the same answer '
      'every time; and all geometric operations go through the context '
      'which the caller passes, or through the default one when none is '
      'passed.',
      'every valid pair of geometries and every point, every context',
      'Tests compare results only: they never look at the arguments '
      'afterwards, hardly repeat a call and use the default context only.',
      ['orient/planar.py'] + [C + f for f in ['contour.py', 'polygon.py',
                                              'multisegment.py',
                                              'events_queue.py']],
      [('public functions', 'orient/planar.py'),
       ('context handed down', C + 'events_queue.py')],
      over=('inputs', 'configurations'),
      observe=['the return values of the public functions',
               'the state of the arguments after a call']),
]

CHK = {
    'technique': 'contract-based deductive verification of the imported '
                 'functions (pyvc: verification conditions from symbolic '
                 'execution with loop invariants, z3/cvc5), bounded '
                 'differential search as the labelled stand-in for the '
                 'sweep as a whole',
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in L:
            f.write(json.dumps(p) + '\n')
    notes = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
    checks = []
    for p in L:
        i = p['id']
        assert i in props.PROPS
        level, note = notes.get(i, notes['default'])
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s quick' % i,
            'thorough_cmd': 'python3-vt check.py %s thorough' % i,
            'technique': CHK['technique'], 'level': level,
            'level_note': note})
    m = {'version': 1,
         'setup_cmd': 'python3-vt -m compileall -q -f lib pyvc check.py '
                      'props.py >/dev/null; true',
         'checks': checks, 'not_applicable': [],
         'notes': 'No hooks: the checks import /repo as it is and run the '
                  'functions on symbolic values. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
