From a07dc37ff4bd3d43b47d5ba5a0893d5b18b8c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:23 +0000
Subject: [PATCH 1/6] fix: relate contours with boundaries inside each other as
 crossing

Contours whose boundaries both have parts inside of the other's region
(and parts outside of it) were reported as touching.
---
 orient/core/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index a112357..f218329 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -102,8 +102,8 @@ def process_closed_linear_queue(events_queue: CompoundEventsQueue,
                   if has_no_touch
                   else Relation.TOUCH)
                  if (has_no_cross
-                     and (test_boundary_not_in_goal_interior
-                          is goal_boundary_not_in_test_interior))
+                     and test_boundary_not_in_goal_interior
+                     and goal_boundary_not_in_test_interior)
                  else Relation.CROSS)
                 if has_no_overlap
                 else Relation.OVERLAP)
-- 
2.43.0


From 78a05b32dbaed03467032f27b9fe52022d23e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:37 +0000
Subject: [PATCH 2/6] fix: decide crossing of linear and compound geometries by
 parts locations

Linear geometry containing the whole border of the compound one
along with parts inside and outside of it was reported as touching,
linear geometry passing from one part of the compound geometry to another
through their common point was reported as crossing.
---
 orient/core/processing.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index f218329..59d9a87 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -113,34 +113,21 @@ def process_linear_compound_queue(events_queue: CompoundEventsQueue,
                                   stop_x: Scalar) -> Relation:
     # ``goal`` is a compound object
     # ``test`` is a linear object
+    test_is_subset_of_goal = True
     test_not_in_goal_interior = has_no_touch = True
-    test_is_subset_of_goal = goal_border_subset_of_test = True
     for event in events_queue.sweep(stop_x):
-        if event.relation is SegmentsRelation.CROSS:
-            return Relation.CROSS
-        elif has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
+        if has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
             has_no_touch = False
         if event.from_test:
             if test_is_subset_of_goal and event.outside:
                 test_is_subset_of_goal = False
             if test_not_in_goal_interior and event.inside:
                 test_not_in_goal_interior = False
-        elif (goal_border_subset_of_test
-              and event.relation is not SegmentsRelation.OVERLAP):
-            goal_border_subset_of_test = False
-    if events_queue:
-        if events_queue.peek().from_test:
-            if test_is_subset_of_goal:
-                test_is_subset_of_goal = False
-        elif goal_border_subset_of_test:
-            goal_border_subset_of_test = False
-    if goal_border_subset_of_test:
-        return ((Relation.COMPONENT
-                 if test_not_in_goal_interior
-                 else Relation.ENCLOSED)
-                if test_is_subset_of_goal
-                else Relation.TOUCH)
-    elif test_is_subset_of_goal:
+            if not test_is_subset_of_goal and not test_not_in_goal_interior:
+                return Relation.CROSS
+    if events_queue and events_queue.peek().from_test:
+        test_is_subset_of_goal = False
+    if test_is_subset_of_goal:
         return (Relation.COMPONENT
                 if test_not_in_goal_interior
                 else (Relation.WITHIN
-- 
2.43.0


From 77139391e93ae8fe5f4bb1c1674289e7ae2340d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:00 +0000
Subject: [PATCH 3/6] fix: detect crossing of multisegments in common point of
 many segments

Only one pair of the goal segments sharing a point was considered,
so crossing by other pairs was reported as touching.
---
 orient/core/events_queue.py | 42 ++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/orient/core/events_queue.py b/orient/core/events_queue.py
index 7c4ba58..70f90d8 100644
--- a/orient/core/events_queue.py
+++ b/orient/core/events_queue.py
@@ -232,22 +232,10 @@ class LinearEventsQueue(EventsQueue):
             (from_test_events
              if event.from_test
              else from_goal_events).append(event)
-        start = same_start_events[0].start
-        point_event_cosine = self._to_signed_point_event_squared_cosine
-        base_event = min(from_goal_events,
-                         key=partial(point_event_cosine,
-                                     from_goal_events[0].end))
-        base_end = base_event.end
-        largest_angle_event = min(from_goal_events,
-                                  key=partial(point_event_cosine, base_end))
-        largest_angle_end = largest_angle_event.end
-        base_orientation = self.context.angle_orientation(
-                start, base_end, largest_angle_end
-        )
-        if not all_equal(self._point_in_angle(test_event.end, start, base_end,
-                                              largest_angle_end,
-                                              base_orientation)
-                         for test_event in from_test_events):
+        start, base_end = same_start_events[0].start, from_goal_events[0].end
+        if any(self._angle_divides_events(start, base_end, goal_event.end,
+                                          from_test_events)
+               for goal_event in from_goal_events[1:]):
             for event in same_start_events:
                 left_event = event if event.is_left else event.left
                 left_event.relation = max(left_event.relation,
@@ -300,6 +288,20 @@ class LinearEventsQueue(EventsQueue):
                 self._divide_segment(start_max, end_min.start)
                 self._divide_segment(start_min, start_max.start)
 
+    def _angle_divides_events(self,
+                              vertex: Point,
+                              first_ray_point: Point,
+                              second_ray_point: Point,
+                              events: Iterable[Event]) -> bool:
+        angle_orientation = self.context.angle_orientation(
+                vertex, first_ray_point, second_ray_point
+        )
+        return not all_equal(self._point_in_angle(event.end, vertex,
+                                                  first_ray_point,
+                                                  second_ray_point,
+                                                  angle_orientation)
+                             for event in events)
+
     def _point_in_angle(self,
                         point: Point,
                         vertex: Point,
@@ -321,14 +323,6 @@ class LinearEventsQueue(EventsQueue):
                                 # if angle is degenerate
                                 or Orientation.COUNTERCLOCKWISE))))
 
-    def _to_signed_point_event_squared_cosine(self,
-                                              point: Point,
-                                              event: Event) -> Scalar:
-        dot_product = self.context.dot_product(event.start, point, event.start,
-                                               event.end)
-        return ((2 * (dot_product > 0) - 1) * (dot_product * dot_product)
-                / self.context.points_squared_distance(event.start, event.end))
-
 
 class EventsQueueKey:
     __slots__ = 'orienteer', 'event'
-- 
2.43.0


From 273d9476387f44988889284a552b24af7b0972f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 4/6] fix: relate segment to region by locations of its parts

Segments with both endpoints on the region's border were misclassified:
only the directions at the endpoints were considered,
with wrong neighbours of the edges for clockwise borders,
and passing through the border along its edge was not detected.
---
 orient/core/region.py | 162 +-----------------------------------------
 1 file changed, 3 insertions(+), 159 deletions(-)

diff --git a/orient/core/region.py b/orient/core/region.py
index c92ed39..9012664 100644
--- a/orient/core/region.py
+++ b/orient/core/region.py
@@ -14,8 +14,6 @@ from ground.hints import (Box,
 from . import box
 from .contour import (
     equal as contours_equal,
-    orientation as contour_orientation,
-    point_vertex_line_divides_angle,
     to_edges_endpoints as contour_to_edges_endpoints,
     to_oriented_edges_endpoints as contour_to_oriented_segments
 )
@@ -24,8 +22,7 @@ from .hints import Region
 from .multisegment import to_segments_endpoints
 from .processing import (process_compound_queue,
                          process_linear_compound_queue)
-from .segment import (locate_point as locate_point_in_segment,
-                      relate_segment as relate_segments)
+from .segment import locate_point as locate_point_in_segment
 
 
 def locate_point(region: Region,
@@ -52,164 +49,11 @@ def _locate_point(region: Region,
     return None, (Location.INTERIOR if result else Location.EXTERIOR)
 
 
-def _relate_segment_to_contour(contour: Contour,
-                               segment: Segment,
-                               context: Context) -> Relation:
-    # similar to segment-in-contour check
-    # but cross has higher priority over overlap
-    # because cross with contour will be considered as cross with region
-    # whereas overlap with contour can't be an overlap with region
-    # and should be classified by further analysis
-    has_no_touch = has_no_overlap = True
-    last_touched_edge_index = last_touched_edge_start = None
-    start, end = segment.start, segment.end
-    for index, edge in enumerate(context.contour_segments(contour)):
-        edge_start, edge_end = edge_endpoints = edge.start, edge.end
-        relation_with_edge = relate_segments(edge, segment, context)
-        if (relation_with_edge is Relation.COMPONENT
-                or relation_with_edge is Relation.EQUAL):
-            return Relation.COMPONENT
-        elif (relation_with_edge is Relation.OVERLAP
-              or relation_with_edge is Relation.COMPOSITE):
-            if has_no_overlap:
-                has_no_overlap = False
-        elif relation_with_edge is Relation.TOUCH:
-            if has_no_touch:
-                has_no_touch = False
-            elif (index - last_touched_edge_index == 1
-                  and start not in edge_endpoints and end not in edge_endpoints
-                  and (context.angle_orientation(start, end, edge_start)
-                       is Orientation.COLLINEAR)
-                  and point_vertex_line_divides_angle(start,
-                                                      last_touched_edge_start,
-                                                      edge_start, edge_end,
-                                                      context)):
-                return Relation.CROSS
-            last_touched_edge_index = index
-            last_touched_edge_start = edge_start
-        elif relation_with_edge is Relation.CROSS:
-            return Relation.CROSS
-    vertices = contour.vertices
-    if not has_no_touch and last_touched_edge_index == len(vertices) - 1:
-        first_edge_endpoints = first_edge_start, first_edge_end = (
-            vertices[-1], vertices[0]
-        )
-        if (relate_segments(context.segment_cls(first_edge_start,
-                                                first_edge_end), segment,
-                            context) is Relation.TOUCH
-                and start not in first_edge_endpoints
-                and end not in first_edge_endpoints
-                and (context.angle_orientation(start, end, first_edge_start)
-                     is Orientation.COLLINEAR)
-                and point_vertex_line_divides_angle(start, vertices[-2],
-                                                    first_edge_start,
-                                                    first_edge_end, context)):
-            return Relation.CROSS
-    return ((Relation.DISJOINT if has_no_touch else Relation.TOUCH)
-            if has_no_overlap
-            else Relation.OVERLAP)
-
-
 def relate_segment(region: Region,
                    segment: Segment,
                    context: Context) -> Relation:
-    relation_with_contour = _relate_segment_to_contour(region, segment,
-                                                       context)
-    if (relation_with_contour is Relation.CROSS
-            or relation_with_contour is Relation.COMPONENT):
-        return relation_with_contour
-    start, end = segment.start, segment.end
-    start_index, start_location = _locate_point(region, start, context)
-    if relation_with_contour is Relation.DISJOINT:
-        return (Relation.DISJOINT
-                if start_location is Location.EXTERIOR
-                else Relation.WITHIN)
-    elif start_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    elif start_location is Location.INTERIOR:
-        return Relation.ENCLOSED
-    else:
-        end_index, end_location = _locate_point(region, end, context)
-        if end_location is Location.EXTERIOR:
-            return Relation.TOUCH
-        elif end_location is Location.INTERIOR:
-            return Relation.ENCLOSED
-        else:
-            angle_orientation = context.angle_orientation
-            border_orientation = contour_orientation(region, context)
-            positively_oriented = (border_orientation
-                                   is Orientation.COUNTERCLOCKWISE)
-            vertices = region.vertices
-            edge_start, edge_end = (vertices[start_index - 1],
-                                    vertices[start_index])
-            if start == edge_start:
-                prev_start = (vertices[start_index - 2]
-                              if positively_oriented
-                              else vertices[start_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, end)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, end)
-                      is angle_orientation(edge_end, edge_start, end)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif start == edge_end:
-                next_end = (vertices[(start_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - start_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, end)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                    elif (angle_orientation(edge_end, edge_start, end)
-                          is angle_orientation(next_end, edge_end, end)
-                          is border_orientation):
-                        return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, end)
-                  is border_orientation):
-                return Relation.TOUCH
-            edge_start, edge_end = vertices[end_index - 1], vertices[end_index]
-            if end == edge_start:
-                prev_start = (vertices[end_index - 2]
-                              if positively_oriented
-                              else vertices[end_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, start)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, start)
-                      is angle_orientation(edge_end, edge_start, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif end == edge_end:
-                next_end = (vertices[(end_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - end_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, start)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_end, edge_start, start)
-                      is angle_orientation(next_end, edge_end, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, start)
-                  is border_orientation):
-                return Relation.TOUCH
-            return Relation.ENCLOSED
+    return relate_multisegment(region, context.multisegment_cls([segment]),
+                               context)
 
 
 def relate_multisegment(region: Region,
-- 
2.43.0


From c4b8ce503b8d2828d5fe37bf0792363ccaa670c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 5/6] fix: relate segment to polygon as a whole

Relations with border and with holes taken separately
do not determine relation with polygon: segment passing along the border
into a hole through their common point was reported as crossing.
---
 orient/core/polygon.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index e20fa8d..8312d06 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -16,7 +16,6 @@ from .hints import (Multiregion,
 from .multiregion import (_relate_contour as relate_contour_to_multiregion,
                           _relate_region as relate_region_to_regions,
                           relate_multiregion as relate_multiregions,
-                          relate_segment as relate_segment_to_multiregion,
                           to_oriented_edges_endpoints
                           as multiregion_to_oriented_segments)
 from .multisegment import to_segments_endpoints
@@ -24,7 +23,6 @@ from .processing import process_linear_compound_queue
 from .region import (_relate_contour as relate_contour_to_region,
                      _relate_region as relate_regions,
                      locate_point as locate_point_in_region,
-                     relate_segment as relate_segment_to_region,
                      to_oriented_segments as region_to_oriented_segments)
 
 
@@ -46,24 +44,8 @@ def locate_point(polygon: Polygon,
 def relate_segment(polygon: Polygon,
                    segment: Segment,
                    context: Context) -> Relation:
-    relation_without_holes = relate_segment_to_region(polygon.border, segment,
-                                                      context)
-    if (polygon.holes and (relation_without_holes is Relation.WITHIN
-                           or relation_without_holes is Relation.ENCLOSED)):
-        relation_with_holes = relate_segment_to_multiregion(polygon.holes,
-                                                            segment, context)
-        if relation_with_holes is Relation.DISJOINT:
-            return relation_without_holes
-        elif relation_with_holes is Relation.TOUCH:
-            return Relation.ENCLOSED
-        elif relation_with_holes is Relation.ENCLOSED:
-            return Relation.TOUCH
-        elif relation_with_holes is Relation.WITHIN:
-            return Relation.DISJOINT
-        else:
-            return relation_with_holes
-    else:
-        return relation_without_holes
+    return relate_multisegment(polygon, context.multisegment_cls([segment]),
+                               context)
 
 
 def relate_multisegment(polygon: Polygon,
-- 
2.43.0


From 9b564de87b93759b175ffd5dc17eba3fcfe20bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:45 +0000
Subject: [PATCH 6/6] fix: polygon in polygon when one hole touches from
 outside and another lies in a hole

A hole of the outer polygon that touches the border of the inner one was
forgotten once another hole lay within the holes of the inner polygon:
WITHIN (COVER) was returned instead of ENCLOSED (ENCLOSES).
---
 orient/core/polygon.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index 8312d06..3da9e2c 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -278,7 +278,9 @@ def relate_polygon(goal: Polygon,
                       or holes_relation is Relation.ENCLOSED):
                     return Relation.ENCLOSED
                 elif holes_relation is Relation.WITHIN:
-                    return borders_relation
+                    return (borders_relation
+                            if none_touch
+                            else Relation.ENCLOSED)
                 else:
                     return Relation.OVERLAP
             else:
@@ -330,7 +332,9 @@ def relate_polygon(goal: Polygon,
                   or holes_relation is Relation.ENCLOSED):
                 return Relation.ENCLOSES
             elif holes_relation is Relation.WITHIN:
-                return borders_relation
+                return (borders_relation
+                        if none_touch
+                        else Relation.ENCLOSES)
             else:
                 return Relation.OVERLAP
         else:
-- 
2.43.0

