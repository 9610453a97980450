"""Planted bugs: each breaks one property in a way the tests do not see."""


def sq(x, y, w, h=None):
    h = w if h is None else h
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]


CONTEXT_DEMO = '''"""Exits with 0 when only the context which was passed is used."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import ground.base
from orient import planar
c = ground.base.get_context()
P, S, MS = c.point_cls, c.segment_cls, c.multisegment_cls
true = ground.base.get_context


class Poison:
    def __getattr__(self, name):
        raise AssertionError('the default context is used: ' + name)


for name, m in list(sys.modules.items()):
    if m is not None and name.partition('.')[0] in ('orient', 'ground'):
        for k, x in list(vars(m).items()):
            if x is true:
                setattr(m, k, Poison)
own = ground.base.Context()
goal = MS([S(P(0, 0), P(2, 1)), S(P(-2, 1), P(0, 0))])
test = MS([S(P(0, 0), P(2, -1)), S(P(0, 0), P(0, 3))])
try:
    r = planar.multisegment_in_multisegment(test, goal, context=own).name
except AssertionError as e:
    print(e)
    sys.exit(1)
print(r)
sys.exit(0 if r == 'CROSS' else 1)
'''

BUGS = {
    'c03-closing-vertex': {
        'property': 'C03',
        'needs': 'a contour whose last vertex lies inside of the segment, '
                 'with its second vertex on the side of the first one and '
                 'its last but one vertex on the other side',
        'breaks': 'the angle at the closing vertex of a contour is taken '
                  'with the wrong neighbour, a crossing is reported as TOUCH',
        'edits': [('contour.py',
                   'point_vertex_line_divides_angle(start, vertices[-2],',
                   'point_vertex_line_divides_angle(start, vertices[1],')],
        'cases': [(('segment', [(-1, 0), (1, 0)]),
                   ('contour', [(1, 2), (3, 2), (1, -2), (0, 0)]), 'CROSS')],
    },
    'c04-first-angle-only': {
        'property': 'C04',
        'needs': 'three goal segments at a point where only the angle between '
                 'the first and the third divides the test segments',
        'breaks': 'only one angle of the goal at a common point is looked at',
        'edits': [('events_queue.py', 'for goal_event in from_goal_events[1:]',
                   'for goal_event in from_goal_events[1:2]')],
        'cases': [(('multisegment', [[(0, 0), (2, 1)], [(0, 0), (-2, 1)]]),
                   ('multisegment', [[(0, 0), (1, -2)], [(0, 0), (2, -1)],
                                     [(0, 0), (1, 2)]]), 'CROSS')],
    },
    'c05-last-region-stops': {
        'property': 'C05',
        'needs': 'a multiregion whose last region is left of another one, '
                 'and a multisegment reaching beyond the last region only '
                 'outside of it',
        'breaks': 'the sweep stops at the right side of the last region',
        'edits': [('multiregion.py', '''                multiregion_max_x = max(multiregion_max_x,
                                        region_bounding_box.max_x)
            events_queue.register(region_to_oriented_segments(region, context),
                                  from_test=False)
    return (Relation.DISJOINT
            if disjoint
            else
            process''', '''                multiregion_max_x = region_bounding_box.max_x
            events_queue.register(region_to_oriented_segments(region, context),
                                  from_test=False)
    return (Relation.DISJOINT
            if disjoint
            else
            process''')],
        'cases': [(('segment', [(1, 3), (6, 3)]),
                   ('multiregion', [sq(4, 0, 4), [(0, 0), (2, 0), (0, 4)]]),
                   'CROSS')],
    },
    'c06-touched-hole': {
        'property': 'C06',
        'needs': 'a contour within the border of a polygon which touches one '
                 'of its holes from outside',
        'breaks': 'touching a hole is not touching the polygon',
        'edits': [('polygon.py', '''            return relation_without_holes
        elif relation_with_holes is Relation.TOUCH:
            return Relation.ENCLOSED
        elif (''', '''            return relation_without_holes
        elif relation_with_holes is Relation.TOUCH:
            return relation_without_holes
        elif (''')],
        'cases': [(('contour', [(1, 3), (4, 5), (1, 7)]),
                   ('polygon', [sq(0, 0, 10), [sq(4, 4, 2)]]), 'ENCLOSED')],
    },
    'c07-common-region-only': {
        'property': 'C07',
        'needs': 'two multiregions with a common region, each with one more '
                 'region outside of the other',
        'breaks': 'TOUCH is reported though the interiors have common points',
        'edits': [('processing.py', '''            if none_overlapping_components:
                none_overlapping_components = False
        elif event.inside:''', '''            if (none_overlapping_components
                    and test_is_subset_of_goal and goal_is_subset_of_test):
                none_overlapping_components = False
        elif event.inside:''')],
        'cases': [(('multiregion', [sq(0, 0, 2), sq(0, 6, 2)]),
                   ('multiregion', [sq(0, 0, 2), sq(2, 6, 2), sq(-5, 0, 2)]),
                   'OVERLAP')],
    },
    'c08-equal-borders-holes-touch': {
        'property': 'C08',
        'needs': 'two polygons with the same border whose holes touch each '
                 'other from outside',
        'breaks': 'ENCLOSED is reported for overlapping polygons',
        'edits': [('polygon.py', '''            if holes_relation in (Relation.DISJOINT,
                                  Relation.TOUCH,
                                  Relation.OVERLAP):''',
                   '''            if holes_relation in (Relation.DISJOINT,
                                  Relation.OVERLAP):''')],
        'cases': [(('polygon', [sq(0, 0, 10), [sq(2, 2, 2)]]),
                   ('polygon', [sq(0, 0, 10), [sq(4, 4, 2)]]), 'OVERLAP'),
                  (('polygon', [sq(0, 0, 10), [sq(2, 2, 2)]]),
                   ('polygon', [sq(0, 0, 10), [sq(4, 2, 2)]]), 'OVERLAP')],
    },
    'c09-last-abscissa': {
        'property': 'C09',
        'needs': 'two areas whose only common point is the rightmost vertex '
                 'of one and the leftmost of the other',
        'breaks': 'segments starting at the right side of the smaller box '
                  'are not swept, so the common point is lost',
        'edits': [('events_queue.py', '''        sweep_line: SweepLine[CompoundEvent] = SweepLine(self.context)
        queue = self._queue
        start: Optional[Point] = queue.peek().start if queue else None
        same_start_events: List[Event] = []
        while queue:
            event = queue.peek()
            if event.start.x > stop_x:''',
                   '''        sweep_line: SweepLine[CompoundEvent] = SweepLine(self.context)
        queue = self._queue
        start: Optional[Point] = queue.peek().start if queue else None
        same_start_events: List[Event] = []
        while queue:
            event = queue.peek()
            if (event.start.x > stop_x
                    or event.start.x == stop_x < event.end.x):''')],
        'cases': [(('region', [(0, 0), (2, 1), (0, 2)]),
                   ('region', [(2, 1), (4, 0), (4, 2)]), 'TOUCH'),
                  (('region', [(2, 1), (4, 0), (4, 2)]),
                   ('polygon', [[(0, 0), (2, 1), (0, 2)], []]), 'TOUCH')],
    },
    'c10-goal-beyond': {
        'property': 'C10',
        'needs': 'a goal of which one region lies within the test and another '
                 'wholly to the right of it, with overlapping boxes',
        'breaks': 'what is left of the goal after the sweep is ignored, while '
                  'what is left of the test is not',
        'edits': [('processing.py', '''        elif goal_is_subset_of_test:
            goal_is_subset_of_test = False
    if boundaries''', '''    if boundaries''')],
        'cases': [(('multiregion', [sq(0, 0, 4), sq(0, 6, 2)]),
                   ('multiregion', [sq(1, 1, 1), sq(10, 3, 2)]), 'OVERLAP'),
                  (('multiregion', [sq(1, 1, 1), sq(10, 3, 2)]),
                   ('multiregion', [sq(0, 0, 4), sq(0, 6, 2)]), 'OVERLAP')],
    },
    'c11-gap-between-components': {
        'property': 'C11',
        'needs': 'a multisegment on a segment with a gap, the pieces beside '
                 'the gap coming before those at the ends',
        'breaks': 'the gap is seen or not depending on the order of segments',
        'edits': [('multisegment.py', '''            components_starts.add(component_start)
''', ''), ('multisegment.py', '''                    and all(component_end in components_starts
                            or component_end == max_component_end
                            for _, component_end in components))''',
                  '''                    and min_component_start in components_starts
                    or start == end)''')],
        'cases': [(('segment', [(0, 0), (6, 0)]),
                   ('multisegment', [[(0, 0), (1, 0)], [(1, 0), (2, 0)],
                                     [(4, 0), (5, 0)], [(5, 0), (6, 0)]]),
                   'COMPOSITE'),
                  (('segment', [(0, 0), (6, 0)]),
                   ('multisegment', [[(1, 0), (2, 0)], [(4, 0), (5, 0)],
                                     [(0, 0), (1, 0)], [(5, 0), (6, 0)]]),
                   'COMPOSITE')],
    },
    'c12-last-vertex': {
        'property': 'C12',
        'needs': 'two regions of opposite orientations which differ in the '
                 'last vertex of one of them only',
        'breaks': 'different regions are EQUAL',
        'edits': [('contour.py', 'else range(size - 1, index - 1, right_step)',
                   'else range(size - 1, index + 1, right_step)')],
        'cases': [(('region', [(0, 0), (1, 3), (4, 4), (4, 0)]),
                   ('region', sq(0, 0, 4)), 'ENCLOSED'),
                  (('contour', [(0, 0), (1, 3), (4, 4), (4, 0)]),
                   ('contour', sq(0, 0, 4)), 'OVERLAP')],
    },
    'c13-nested-contours': {
        'property': 'C13',
        'needs': 'a contour inside of another one with a common piece of an '
                 'edge',
        'breaks': 'contours answer TOUCH where the multisegments of their '
                  'edges OVERLAP',
        'edits': [('processing.py', '''                if test_boundary_not_in_goal_interior
                else ((Relation.DISJOINT
                       if has_no_touch
                       else Relation.TOUCH)
                      if has_no_overlap
                      else Relation.OVERLAP))''',
                   '''                if test_boundary_not_in_goal_interior
                else (Relation.DISJOINT
                      if has_no_touch and has_no_overlap
                      else Relation.TOUCH))''')],
        'cases': [(('contour', [(1, 0), (3, 0), (2, 2)]),
                   ('contour', sq(0, 0, 4)), 'OVERLAP'),
                  (('multisegment', [[(1, 0), (3, 0)], [(3, 0), (2, 2)],
                                     [(2, 2), (1, 0)]]),
                   ('contour', sq(0, 0, 4)), 'OVERLAP')],
    },
    'c14-rest-of-the-test': {
        'property': 'C14',
        'needs': 'a multisegment with one segment within the area and '
                 'another wholly to the right of it, at the same height',
        'breaks': 'WITHIN is reported though points of the test are outside',
        'edits': [('processing.py',
                   '''    if events_queue and events_queue.peek().from_test:
        test_is_subset_of_goal = False
    if test_is_subset_of_goal:
        return (Relation.COMPONENT
                if test_not_in_goal_interior''',
                   '''    if events_queue and events_queue.peek().from_test:
        test_is_subset_of_goal = (test_is_subset_of_goal
                                  and not test_not_in_goal_interior)
    if test_is_subset_of_goal:
        return (Relation.COMPONENT
                if test_not_in_goal_interior''')],
        'cases': [(('multisegment', [[(1, 1), (2, 2)], [(6, 1), (7, 1)]]),
                   ('region', sq(0, 0, 4)), 'CROSS')],
    },
    'c15-star': {
        'property': 'C15',
        'needs': 'four segments of the test meeting in a point with no goal '
                 'segment there',
        'breaks': 'an IndexError is raised',
        'edits': [('events_queue.py',
                   '< len(same_start_events) - 1)):',
                   '<= len(same_start_events))):')],
        'cases': [(('multisegment', [[(1, 1), (2, 2)], [(1, 1), (0, 2)],
                                     [(1, 1), (2, 0)], [(1, 1), (0, 0)]]),
                   ('multisegment', [[(0, 1), (0, 3)], [(2, 0), (3, 3)]]),
                   'TOUCH')],
    },
    'c16-default-context': {
        'property': 'C16',
        'needs': 'two test and two goal segments at a common point, and a '
                 'context other than the default one',
        'breaks': 'crossing angles are found with the default context',
        'edits': [('events_queue.py', '''from ground.base import (Context,
                         Orientation,
                         Relation)''', '''from ground.base import (Context,
                         Orientation,
                         Relation,
                         get_context)'''),
                  ('events_queue.py',
                   '''        second_half_orientation = self.context.angle_orientation(
                second_ray_point''',
                   '''        second_half_orientation = get_context().angle_orientation(
                second_ray_point''')],
        'demo': CONTEXT_DEMO,
    },
    'c02-hole-to-the-right': {
        'property': 'C02',
        'needs': 'a point inside of a hole with both the first and the last '
                 'vertex of the hole above it to the right',
        'breaks': 'such a point is INTERIOR',
        'edits': [('polygon.py', '''        for hole in polygon.holes:
            location_in_hole''', '''        for hole in polygon.holes:
            vertices = hole.vertices
            if vertices[0] > point and vertices[-1] > point:
                continue
            location_in_hole''')],
        'cases': [(('point', (5, 5)),
                   ('polygon', [sq(0, 0, 10), [[(6, 6), (4, 6), (4, 4),
                                                (6, 4)]]]), 'EXTERIOR')],
    },
}
