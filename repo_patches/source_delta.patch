From e9fb2ff3ebc611323e350e185b8adbbdc8ce193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 01/49] fix: home only the axes named by G28, whatever their
 value

---
 gcodeutils/gcoder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 5041308..a8ffe02 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -528,14 +528,15 @@ class GCode(object):
                     if z is not None: current_z = z
 
                 elif line.command == "G28":
-                    home_all = not any([line.x, line.y, line.z])
-                    if home_all or line.x is not None:
+                    homed_axes = [bit[0] for bit in split_raw[1:]]
+                    home_all = not any(axis in homed_axes for axis in "xyz")
+                    if home_all or "x" in homed_axes:
                         offset_x = 0
                         current_x = self.home_x
-                    if home_all or line.y is not None:
+                    if home_all or "y" in homed_axes:
                         offset_y = 0
                         current_y = self.home_y
-                    if home_all or line.z is not None:
+                    if home_all or "z" in homed_axes:
                         offset_z = 0
                         current_z = self.home_z
 
-- 
2.43.0


From 1a19d778774a525788e0d478e96f3867edd16661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 02/49] fix: G92 without any axis sets all of them to 0

---
 gcodeutils/gcoder.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index a8ffe02..2bbbc91 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -541,9 +541,12 @@ class GCode(object):
                         current_z = self.home_z
 
                 elif line.command == "G92":
-                    if line.x is not None: offset_x = current_x - line.x
-                    if line.y is not None: offset_y = current_y - line.y
-                    if line.z is not None: offset_z = current_z - line.z
+                    # no axis given means that all of them are set to 0
+                    reset_all = line.x is None and line.y is None and line.z is None and line.e is None
+                    if reset_all or line.x is not None: offset_x = current_x - (line.x or 0)
+                    if reset_all or line.y is not None: offset_y = current_y - (line.y or 0)
+                    if reset_all or line.z is not None: offset_z = current_z - (line.z or 0)
+                    if reset_all: offset_e = current_e
 
                 line.current_x = current_x
                 line.current_y = current_y
-- 
2.43.0


From 5a6cdb66c49f94fb804dd901f60cc53e26846fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 03/49] fix: a program with one extra last line is not equal to
 the one without it

---
 gcodeutils/gcoder.py | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 2bbbc91..2dc449c 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -800,23 +800,19 @@ class GCode(object):
         meaningful_lines1 = self.comment_stripper_generator()
         meaningful_lines2 = other.comment_stripper_generator()
 
-        for line_number, (l1, l2) in enumerate(zip(meaningful_lines1, meaningful_lines2)):
+        # fetch the lines one by one, so that none is lost when a generator is exhausted before the other
+        for line_number, l1 in enumerate(meaningful_lines1):
+            l2 = next(meaningful_lines2, None)
+            if l2 is None:
+                return "Remaining line(s) for self: '{}'".format(l1)
             # checking the raw representation of lines is a bit naive
             # that will have to evolve as required
             if l1 != l2:
                 return "First difference after {} meaningful lines: '{}' vs '{}' ".format(line_number, l1.raw, l2.raw)
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            l1 = next(meaningful_lines1)
-            return "Remaining line(s) for self: '{}'".format(l1)
-        except StopIteration:
-            try:
-                l2 = next(meaningful_lines2)
-                return "Remaining line(s) for other: '{}'".format(l2)
-            except StopIteration:
-                pass
+        l2 = next(meaningful_lines2, None)
+        if l2 is not None:
+            return "Remaining line(s) for other: '{}'".format(l2)
 
         return None
 
@@ -827,24 +823,14 @@ class GCode(object):
         meaningful_lines1 = self.comment_stripper_generator()
         meaningful_lines2 = other.comment_stripper_generator()
 
-        for l1, l2 in zip(meaningful_lines1, meaningful_lines2):
+        for l1 in meaningful_lines1:
             # checking the raw representation of lines is a bit naive
             # that will have to evolve as required
-            if l1 != l2:
+            if l1 != next(meaningful_lines2, None):
                 return False
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            next(meaningful_lines1)
-            return False
-        except StopIteration:
-            try:
-                next(meaningful_lines2)
-                return False
-            except StopIteration:
-                pass
-        return True
+        # both programs have to end at the same time
+        return next(meaningful_lines2, None) is None
 
     def comment_stripper_generator(self):
         """return only non comment lines"""
-- 
2.43.0


From 63a5a81d080221ff7f576d618ca77f398432d256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 04/49] fix: index of appended lines inside their layer

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 2dc449c..c77b58d 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -396,7 +396,7 @@ class GCode(object):
             self.lines.append(gline)
             self.append_layer.append(gline)
             self.layer_idxs.append(self.append_layer_id)
-            self.line_idxs.append(len(self.append_layer))
+            self.line_idxs.append(len(self.append_layer) - 1)
         return gline
 
     def _preprocess(self, lines=None, build_layers=False,
-- 
2.43.0


From dce02b0d9d32abee0f9e27f9a57b815a3424c17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 05/49] fix: equal vectors have equal hashes

---
 gcodeutils/stretch/vector3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/vector3.py b/gcodeutils/stretch/vector3.py
index 2c0ef3e..66ac76f 100644
--- a/gcodeutils/stretch/vector3.py
+++ b/gcodeutils/stretch/vector3.py
@@ -85,7 +85,7 @@ class Vector3:
 
     def __hash__(self):
         'Determine whether this vector is identical to other one.'
-        return self.__repr__().__hash__()
+        return hash((self.x, self.y, self.z))
 
     def __iadd__(self, other):
         'Add other Vector3 to this one.'
-- 
2.43.0


From 49510298ad570467a5dd8858d06a39e09ceca09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 06/49] fix: layer index of a visited layer identical to a
 previous one

---
 gcodeutils/visit/iterator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 78757ae..03265b4 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -46,8 +46,7 @@ class GCodeIterator(object):
         parsed_layer_number = 0
         parsed_line_number = 0
 
-        for parsed_layer in self.__gcode.all_layers:
-            layer_index = self.__gcode.all_layers.index(parsed_layer)
+        for layer_index, parsed_layer in enumerate(self.__gcode.all_layers):
             try:
                 layer_z = round(parsed_layer.z, self.__digits_of_precision)
                 layer_number = self.__all_zs.index(layer_z)
-- 
2.43.0


From 625df227b24e6cf4e9a3698d083efea506839c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 07/49] fix: extrusion of clockwise arcs in absolute extrusion
 mode

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 680682d..811c247 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -306,7 +306,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         else:
             # absolute mode: fall-back to the original length
             phase_diffs=self.get_phase_diffs(circle)
-            arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
+            arc_lens=[ abs(alpha)*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
             op1.e=self.queue[0].current_e+arc_extrusion_length
             op1.relative_e=False
-- 
2.43.0


From 25e51f2102043d6a06b99b2c797f9bb0343e9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 08/49] fix: track the filament position across G92 E

---
 gcodeutils/filter/arc_optimizer.py | 6 ++++--
 gcodeutils/gcoder.py               | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 811c247..450148e 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -308,13 +308,15 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             phase_diffs=self.get_phase_diffs(circle)
             arc_lens=[ abs(alpha)*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
-            op1.e=self.queue[0].current_e+arc_extrusion_length
+            # E of the last segment, from which the whole arc is extruded
+            op1.e=end_point.e-extrusions['total']['filament']+arc_extrusion_length
             op1.relative_e=False
             rel = arc_extrusion_length/extrusions['total']['filament']
             if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
                 op2.command="G92"
-                op2.e = op2.current_e = end_point.current_e
+                op2.e = end_point.e
+                op2.current_e = end_point.current_e
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index c77b58d..9be9540 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -568,7 +568,7 @@ class GCode(object):
                         max_e = max(max_e, total_e)
                         cur_layer_has_extrusion |= line.extruding
                     elif line.command == "G92":
-                        offset_e = line.e #current_e - line.e
+                        offset_e = current_e - line.e
                 line.current_e = current_e
                 # # Create layers and perform global computations
                 if build_layers:
-- 
2.43.0


From 020b53967ae4042508cd1d0c604919052eeb178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 09/49] fix: arcs made of travel moves

---
 gcodeutils/filter/arc_optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 450148e..49ca526 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -287,7 +287,6 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         count = len(self.queue)
         end_point = self.queue[-1]
         error, circle = self.get_circle()
-        extrusions = self.get_distances()
         op1 = Line()
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
@@ -295,7 +294,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1.y = round(circle.end.y, 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
-        if end_point.relative_e:
+        if end_point.e is None:
+            # travel moves only, there is nothing to extrude
+            pass
+        elif end_point.relative_e:
+            extrusions = self.get_distances()
             # calculate extrusion correction
             # arc length   b = r·alpha (alpha in radian)
             # chord length s = 2·r·sin(alpha/2)
@@ -304,6 +307,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                   for s0, alpha in zip(extrusions['filament'].values(), self.get_phase_diffs(circle))])
             op1.relative_e = True
         else:
+            extrusions = self.get_distances()
             # absolute mode: fall-back to the original length
             phase_diffs=self.get_phase_diffs(circle)
             arc_lens=[ abs(alpha)*circle.radius for alpha in phase_diffs]
-- 
2.43.0


From 56f5b92d987f7ada68c3d6f066cfdf8217be1148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 10/49] fix: never merge comments or existing arcs into an arc

---
 gcodeutils/filter/arc_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 49ca526..5cc5395 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -11,7 +11,7 @@ import logging
 from math import sqrt, sin
 import cmath
 from gcodeutils.filter.filter import GCodeFilter
-from gcodeutils.gcoder import Line, move_gcodes, unsplit
+from gcodeutils.gcoder import Line, linear_move_gcodes, move_gcodes, unsplit
 
 __author__ = 'Eyck Jentzsch <eyck@jepemuc.de>'
 
@@ -258,6 +258,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         :return: a tuple consisting of the bool indication an erroneous circle and the estimated circle
         """
         # check from 1 as idx 0 indicates the move to the start point
+        if not all(line.command in linear_move_gcodes for line in self.queue[1:]):
+            return True, None
         all_e = False if self.queue[1].e is None else True
         cur_f = self.queue[1].current_f
         cur_z = self.queue[1].current_z
-- 
2.43.0


From 41817e210446febd9b48552abe0d81c89b9d6d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 11/49] fix: comment before the first move of an arc

---
 gcodeutils/filter/arc_optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 5cc5395..c0a3a38 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -341,7 +341,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         :param opcode: the opcode
         :return: the resulting opcode or a list of resulting opcodes
         """
-        if opcode.command is None and len(self.queue) > 0:
+        if opcode.command is None and len(self.queue) == 0:
+            # nothing to keep the comment with
+            return None
+        if opcode.command is None:
             opcode.current_x  =self.queue[-1].current_x
             opcode.current_y = self.queue[-1].current_y
             opcode.current_z = self.queue[-1].current_z
-- 
2.43.0


From 19eebd5c241eee114cb3eab92468bed010bcd16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 12/49] fix: keep the Z move of the first segment of an arc

---
 gcodeutils/filter/arc_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index c0a3a38..539b92c 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -262,7 +262,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             return True, None
         all_e = False if self.queue[1].e is None else True
         cur_f = self.queue[1].current_f
-        cur_z = self.queue[1].current_z
+        # the arc stays in the plane of its start point
+        cur_z = self.queue[0].current_z
         valid_e = all([line.e is not None for line in self.queue[1:]]) if all_e else \
             not any([line.e is not None for line in self.queue[1:]])
         valid_f = all([line.current_f == cur_f for line in self.queue[1:]])
-- 
2.43.0


From d38bfd1b714afd4307426f936fd063f249a3a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 13/49] fix: no null feedrate in arcs when the program sets
 none

---
 gcodeutils/filter/arc_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 539b92c..2257584 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -327,7 +327,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
-        op1.f = end_point.current_f
+        if end_point.current_f:
+            op1.f = end_point.current_f
         unsplit(op1)
         op1.raw += "; generated from %s segments" % (count - 1)
         self.valid_circle = False
-- 
2.43.0


From 1eb29fe2f5fbf7ac3bf11dededd099b7155918af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 14/49] fix: check both signs of the angle error of arcs

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 2257584..6c21b02 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -211,7 +211,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         if any([error > ALIGNMENT_ERROR for error in radius_err]):
             return True, circle
         angle_err = self.get_circle_angle_errors(circle)
-        return any([error > PHASE_ERROR for error in angle_err]), circle
+        return any([abs(error) > PHASE_ERROR for error in angle_err]), circle
 
     def get_distances(self):
         """
-- 
2.43.0


From 091f3dc28f36163b6fd26d4c060a409bff8372ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 15/49] fix: never replace several turns by one arc

---
 gcodeutils/filter/arc_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 6c21b02..8ea337c 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -210,6 +210,9 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         radius_err = self.get_circle_radius_errors(circle)
         if any([error > ALIGNMENT_ERROR for error in radius_err]):
             return True, circle
+        # an arc command can't turn more than once
+        if abs(sum(self.get_phase_diffs(circle))) > 2 * cmath.pi + EPSILON:
+            return True, circle
         angle_err = self.get_circle_angle_errors(circle)
         return any([abs(error) > PHASE_ERROR for error in angle_err]), circle
 
-- 
2.43.0


From bb3d3ca155dcda3b6683a61bde34cc35205f4bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 16/49] fix: no division by zero on aligned or identical points

---
 gcodeutils/filter/arc_optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 8ea337c..75aa969 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -147,6 +147,9 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             svuu += pt.y * pt.x * pt.x
         if suu < EPSILON or svv < EPSILON:
             return None
+        if svv - suv * suv / suu < EPSILON:
+            # all points are aligned
+            return None
         v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / (((-(suv * suv)) / suu) + svv)
         u = (((suuu + suvv) / 2) - (v * suv)) / suu
         # calculate direction
@@ -252,7 +255,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             prev = line
         extrusions['avg']['filament'] = extrusions['total']['filament'] / len(self.queue)
         extrusions['avg']['path'] = extrusions['total']['path'] / len(self.queue)
-        extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
+        if extrusions['total']['path'] >= EPSILON:
+            extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
         return extrusions
 
     def queue_valid(self):
-- 
2.43.0


From e1a0547db4c385ccf0da4bc4edcc3a946e56e129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 17/49] fix: end point of arcs in relative or shifted
 coordinates

---
 gcodeutils/filter/arc_optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 75aa969..0597635 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -300,8 +300,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1 = Line()
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
-        op1.x = round(circle.end.x, 3)
-        op1.y = round(circle.end.y, 3)
+        # end point in the coordinate system of the segments (relative, or shifted by G92)
+        x_words = [line.x for line in self.queue[1:] if line.x is not None]
+        y_words = [line.y for line in self.queue[1:] if line.y is not None]
+        op1.x = round(sum(x_words) if end_point.relative else x_words[-1], 3)
+        op1.y = round(sum(y_words) if end_point.relative else y_words[-1], 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
         if end_point.e is None:
-- 
2.43.0


From e6643e8d14d6f78ff1caf4824ecc0698f96f214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 18/49] fix: import of gcoder in gcode_tempcal

---
 gcodeutils/gcode_tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index a8cee66..46712ad 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -10,7 +10,7 @@ import sys
 
 __author__ = 'Olivier Jolly <olivier@pcedev.com>'
 
-from gcoder import GCode  # pylint: disable=relative-import
+from gcodeutils.gcoder import GCode
 
 
 class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
-- 
2.43.0


From 53cc68ef89c27d751c782857ba83b479fb577dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 19/49] fix: the number of steps of gcode_tempcal is an integer

---
 gcodeutils/gcode_tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 46712ad..9be7962 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -168,7 +168,7 @@ def main():
                                      help='Switch to a continuous gradient generation where temperature is recomputed '
                                           'for every layer. You may want this in the case of very precise and fast '
                                           'hotend. Defaults to discrete temperature gradient divided in X steps.')
-    temperature_control.add_argument('--steps', '-s', default=10,
+    temperature_control.add_argument('--steps', '-s', type=int, default=10,
                                      help='Number of steps used to create a discrete gradient when using the default '
                                           'gradient generation model. Defaults to %(default)s steps. This setting is '
                                           'not used when using the continuous gradient generation model.')
-- 
2.43.0


From 9b65e412f0a6e60faf7f85fdfb811eaa44a628ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 20/49] fix: start the temperature gradient above min_z_change

---
 gcodeutils/gcode_tempcal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 9be7962..16bcc83 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -57,8 +57,8 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
                 # Keep the lowest Z which is above the minimum height (used to keep the slicer first layers
                 # temperature for adhesion)
-                if self.zmin is None or (
-                                current_z is not None and self.min_z_change < current_z < self.zmin):
+                if current_z is not None and current_z > self.min_z_change and (
+                                self.zmin is None or current_z < self.zmin):
                     self.zmin = current_z
 
         # Make sure that the sliced model is high enough to be usable
-- 
2.43.0


From 8213d067bc7b049f85a62e630356bc988ac34938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 21/49] fix: discrete steps, inside of the requested range, in
 the default temperature gradient

---
 gcodeutils/gcode_tempcal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 16bcc83..8e0ea07 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -134,11 +134,13 @@ class GCodeStepTempGradient(GCodeTempGradient):
         self.step_end_temp = self.end_temp + (self.end_temp - self.start_temp) / self.steps
         self.steps += 1
 
+        self.min_temp = min(self.end_temp, self.start_temp)
         self.max_temp = max(self.end_temp, self.start_temp)
 
     def get_temp_for_current_layer(self):
-        progress = float(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps) / self.steps
-        return min(self.max_temp, self.start_temp + progress * (self.step_end_temp - self.start_temp))
+        progress = int(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps) / self.steps
+        target_temp = self.start_temp + progress * (self.step_end_temp - self.start_temp)
+        return max(self.min_temp, min(self.max_temp, target_temp))
 
 
 def main():
-- 
2.43.0


From eeb5e470f3358613d1e2aed8854377286acca11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 22/49] fix: relative extrusion of programs changing of
 extrusion mode

---
 gcodeutils/filter/relative_extrusion.py | 29 +++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/relative_extrusion.py b/gcodeutils/filter/relative_extrusion.py
index e083a50..c3cd0e7 100644
--- a/gcodeutils/filter/relative_extrusion.py
+++ b/gcodeutils/filter/relative_extrusion.py
@@ -1,7 +1,8 @@
 from decimal import Decimal
 
 from gcodeutils.filter.filter import GCodeFilter
-from gcodeutils.gcoder import GCODE_SET_POSITION_COMMAND, GCODE_RELATIVE_POSITIONING_COMMAND, move_gcodes, split, Line, \
+from gcodeutils.gcoder import GCODE_SET_POSITION_COMMAND, GCODE_RELATIVE_POSITIONING_COMMAND, \
+    GCODE_ABSOLUTE_POSITIONING_COMMAND, move_gcodes, split, Line, \
     GCODE_ABSOLUTE_EXTRUSION_COMMAND, \
     GCODE_RELATIVE_EXTRUSION_COMMAND, raw_to_line, unsplit
 
@@ -11,15 +12,27 @@ __author__ = 'olivier'
 class GCodeToRelativeExtrusionFilter(GCodeFilter):
     def __init__(self):
         self.relative_extrusion = False
+        # extrusion mode of the generated program
+        self.output_relative_extrusion = False
         self.current_extrusion_distance = Decimal()
 
     def opcode_filter(self, opcode):
         if opcode.command == GCODE_RELATIVE_EXTRUSION_COMMAND:
-            self.relative_extrusion = True
+            self.relative_extrusion = self.output_relative_extrusion = True
+            return
+
+        # G90 and G91 also change the extrusion mode
+        if opcode.command == GCODE_RELATIVE_POSITIONING_COMMAND:
+            self.relative_extrusion = self.output_relative_extrusion = True
+            return
+
+        if opcode.command == GCODE_ABSOLUTE_POSITIONING_COMMAND:
+            self.relative_extrusion = self.output_relative_extrusion = False
             return
 
         if opcode.command == GCODE_ABSOLUTE_EXTRUSION_COMMAND:
             self.relative_extrusion = False
+            self.output_relative_extrusion = True
             return raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND)
 
         if opcode.command == GCODE_SET_POSITION_COMMAND:
@@ -32,11 +45,23 @@ class GCodeToRelativeExtrusionFilter(GCodeFilter):
 
             return
 
+        if opcode.command in move_gcodes and self.relative_extrusion and opcode.e is not None:
+            self.current_extrusion_distance += Decimal(opcode.e)
+            return
+
         if opcode.command in move_gcodes and not self.relative_extrusion and opcode.e is not None:
+            if not self.output_relative_extrusion and not self.current_extrusion_distance:
+                # from 0, absolute and relative extrusions are the same
+                self.current_extrusion_distance = Decimal(opcode.e)
+                return
+
             # we're extruding while in absolute extrusion mode, reduce by the amount extruded so far
             # and keep track of the current e for later reuse
             opcode.e, self.current_extrusion_distance = (
             opcode.e - float(self.current_extrusion_distance), Decimal(opcode.e))
             opcode.relative_e=True
             unsplit(opcode)
+            if not self.output_relative_extrusion:
+                self.output_relative_extrusion = True
+                return [raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND), opcode]
             return opcode
-- 
2.43.0


From 81f2064809eb7f1b05e5593802e021070011bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 23/49] fix: write back programs in inches with coordinates in
 inches

---
 gcodeutils/gcoder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 9be9540..46ca0d8 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -45,7 +45,7 @@ GCODE_RELATIVE_EXTRUSION_COMMAND = 'M83'
 
 class PyLine(object):
     __slots__ = ('x', 'y', 'z', 'e', 'f', 'i', 'j',
-                 'raw', 'command', 'is_move',
+                 'raw', 'command', 'is_move', 'imperial',
                  'relative', 'relative_e',
                  'current_x', 'current_y', 'current_z', 'extruding',
                  'current_tool', 'current_f', 'current_e',
@@ -164,10 +164,12 @@ def split(line):
 def unsplit(line):
     format = ""
     arg = []
+    # coordinates of lines are in mm
+    unit_factor = 25.4 if line.imperial else 1
     for bit in gcode_possible_arguments:
         if getattr(line, bit) is not None:
             format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
-            arg += [bit.upper(), getattr(line, bit)]
+            arg += [bit.upper(), getattr(line, bit) / unit_factor]
     line.raw = line.command + format.format(*arg)
 
 
@@ -503,6 +505,7 @@ class GCode(object):
                     current_tool = int(line.command[1:])
 
                 if line.command[0] == "G":
+                    line.imperial = imperial
                     parse_coordinates(line, split_raw, imperial)
 
                 # Compute current position
-- 
2.43.0


From 1d8896c6c1a6db5f6ae1f880385ec58f71f06bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 24/49] fix: arcs of programs in inches

---
 gcodeutils/filter/arc_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 0597635..5dd7087 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -299,6 +299,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         error, circle = self.get_circle()
         op1 = Line()
         result.append(op1)
+        op1.imperial = end_point.imperial
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
         # end point in the coordinate system of the segments (relative, or shifted by G92)
         x_words = [line.x for line in self.queue[1:] if line.x is not None]
@@ -331,6 +332,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             rel = arc_extrusion_length/extrusions['total']['filament']
             if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
+                op2.imperial = end_point.imperial
                 op2.command="G92"
                 op2.e = end_point.e
                 op2.current_e = end_point.current_e
-- 
2.43.0


From 3c8adf8dbde407b69dc8222081e0223b4cb07113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 25/49] fix: decoding of cura profiles with python 3

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 2d5464e..3fd9c42 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -713,7 +713,7 @@ class CuraStretchFilter(StretchFilter):
             self.set_edge_width(0.4)
 
     def parse_cura_profile(self, cura_profile):
-        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).split('\f', 1)
+        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).decode('utf-8').split('\f', 1)
         for option in profileOpts.split('\b'):
             if len(option) > 0:
                 key, value = option.split('=', 1)
-- 
2.43.0


From 85dd9be6fc23feb5cfc55fc365c778253b995bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 26/49] fix: feedrate and location of the moves outside of
 stretched loops

---
 gcodeutils/stretch/stretch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 3fd9c42..6bb58ce 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -491,6 +491,11 @@ class StretchFilter:
         if line.command in linear_move_gcodes and self.isLoop and (line.x is not None or line.y is not None):
             return self.stretch_line(line)
 
+        # keep track of the moves outside of loops
+        if line.command in linear_move_gcodes:
+            self.feedRateMinute = line.f or self.feedRateMinute
+            self.oldLocation = get_location_from_line(self.oldLocation, line)
+
         return line
 
     def set_stretch_to_path(self):
-- 
2.43.0


From 7131a9981c198c5be00c7617475ea6da46df5b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 27/49] fix: stop stretching at the end of a slic3r layer with
 an unfinished loop

---
 gcodeutils/stretch/stretch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 6bb58ce..31649ca 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -305,6 +305,9 @@ class StretchFilter:
     OUTER_EDGE_START_MARKER = LOOP_START_MARKER + ' stretch-outer-edge-start'
     LOOP_STOP_MARKER = 'stretch-loop-stop'
 
+    # can a loop begin before the change of layer ?
+    LOOPS_SPAN_LAYERS = True
+
     def __init__(self, **kwargs):
         self.edgeWidth = 0.4
         self.extruderActive = False
@@ -329,6 +332,8 @@ class StretchFilter:
 
         for self.current_layer_index, current_layer in enumerate(self.gcode.all_layers):
             self.current_layer = current_layer[:]
+            if not self.LOOPS_SPAN_LAYERS:
+                self.set_stretch_to_path()
             for self.line_number_in_layer, line in enumerate(self.current_layer):
                 gcode_line = self.parse_line(line)
                 parse_coordinates(gcode_line, split(gcode_line))
@@ -520,6 +525,8 @@ class StretchFilter:
 
 
 class Slic3rStretchFilter(StretchFilter):
+    LOOPS_SPAN_LAYERS = False
+
     UNKNOWN = 0
     EXTERNAL_PERIMETER = 1
     EXTRA_PERIMETER = 2
-- 
2.43.0


From 86e23e55fec86d6b63b0456c8758fe28721c9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 28/49] fix: stretch of programs in inches

---
 gcodeutils/stretch/stretch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 31649ca..e1280a4 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -336,7 +336,7 @@ class StretchFilter:
                 self.set_stretch_to_path()
             for self.line_number_in_layer, line in enumerate(self.current_layer):
                 gcode_line = self.parse_line(line)
-                parse_coordinates(gcode_line, split(gcode_line))
+                parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
     def get_cross_limited_stretch(self, crossLimitedStretch, crossLineIterator, locationComplex):
@@ -433,6 +433,7 @@ class StretchFilter:
 
         result = Line()
         result.command = original_line.command
+        result.imperial = original_line.imperial
         result.x = stretchedPoint.real
         result.y = stretchedPoint.imag
         result.z = original_line.z
-- 
2.43.0


From 329b9726f1df81cb1bbd7bb9072f61b826984104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 29/49] fix: translation across G92 and G28

---
 gcodeutils/filter/translate.py | 57 ++++++++++++++++++++--------------
 gcodeutils/gcoder.py           | 16 +++++++---
 2 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/gcodeutils/filter/translate.py b/gcodeutils/filter/translate.py
index 2e1ed0f..9c2c664 100644
--- a/gcodeutils/filter/translate.py
+++ b/gcodeutils/filter/translate.py
@@ -2,7 +2,7 @@ import logging
 
 from gcodeutils.filter.filter import GCodeFilter
 from gcodeutils.gcoder import move_gcodes, split, unsplit, GCODE_ABSOLUTE_POSITIONING_COMMAND, \
-    GCODE_RELATIVE_POSITIONING_COMMAND, GCODE_SET_POSITION_COMMAND, Line, raw_to_line
+    GCODE_RELATIVE_POSITIONING_COMMAND, GCODE_SET_POSITION_COMMAND, GCODE_HOME_COMMAND, Line, homed_axes, raw_to_line
 
 __author__ = 'olivier'
 
@@ -14,6 +14,11 @@ class GCodeXYTranslateFilter(GCodeFilter):
         self.translate_x = x or 0.
         self.translate_y = y or 0.
 
+        # what has to be added to absolute coordinates, nothing once included in the reference point (G92)
+        self.shift = {'x': self.translate_x, 'y': self.translate_y}
+        # axes which are at their translated position
+        self.translated = {'x': False, 'y': False}
+
         self.first_move_after_home = False
 
         self.absolute_distance_mode = None  # None if when it is unknown
@@ -38,16 +43,23 @@ class GCodeXYTranslateFilter(GCodeFilter):
                 return
 
             # at this point, we're an absolute move, we have to "hard patch" coordinate
-            if opcode.x is not None and self.translate_x:
-                opcode.x += self.translate_x
-                unsplit(opcode)
-
-            if opcode.y is not None and self.translate_y:
-                opcode.y += self.translate_y
-                unsplit(opcode)
+            for axis in 'x', 'y':
+                if getattr(opcode, axis) is not None:
+                    self.translated[axis] = True
+                    if self.shift[axis]:
+                        setattr(opcode, axis, getattr(opcode, axis) + self.shift[axis])
+                        unsplit(opcode)
 
             return opcode
 
+        if opcode.command == GCODE_HOME_COMMAND:
+            for axis in homed_axes(split(opcode)):
+                if axis in self.shift:
+                    # back to the untranslated machine origin
+                    self.shift[axis] = self.translate_x if axis == 'x' else self.translate_y
+                    self.translated[axis] = False
+            return
+
         if opcode.command == GCODE_ABSOLUTE_POSITIONING_COMMAND:
             self.absolute_distance_mode = True
             return
@@ -57,25 +69,22 @@ class GCodeXYTranslateFilter(GCodeFilter):
             return
 
         if opcode.command == GCODE_SET_POSITION_COMMAND:
-            if opcode.x is None and opcode.y is None and opcode.z is None:
-                # no coordinate given is equivalent to all 0
-                opcode.x = - self.translate_x
-                opcode.y = - self.translate_y
+            reset_all = opcode.x is None and opcode.y is None and opcode.z is None and opcode.e is None
 
-                # now, there is a new reference point, that we translated so there's nothing left to do until
-                # the end of the program
-                self.translate_x = self.translate_y = 0
+            for axis, translation in ('x', self.translate_x), ('y', self.translate_y):
+                if not reset_all and getattr(opcode, axis) is None:
+                    continue
 
-                unsplit(opcode)
-                return opcode
+                # from now on, there is a new reference point, which is either already translated or that we translate
+                self.shift[axis] = 0
+                if self.translated[axis] or not translation:
+                    continue
 
-            if opcode.x is not None:
-                opcode.x -= self.translate_x
-                self.translate_x = 0
+                if reset_all and opcode.e is None:
+                    # no coordinate given is equivalent to all 0
+                    opcode.x = opcode.y = opcode.z = opcode.e = 0
 
-            if opcode.y is not None:
-                opcode.y -= self.translate_y
-                self.translate_y = 0
+                setattr(opcode, axis, getattr(opcode, axis) - translation)
+                unsplit(opcode)
 
-            unsplit(opcode)
             return opcode
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 46ca0d8..4a3f4a8 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -38,6 +38,7 @@ gcode_possible_arguments = ['x', 'y', 'z', 'e', 'f', 'i', 'j']
 GCODE_ABSOLUTE_POSITIONING_COMMAND = 'G90'
 GCODE_RELATIVE_POSITIONING_COMMAND = 'G91'
 GCODE_SET_POSITION_COMMAND = 'G92'
+GCODE_HOME_COMMAND = 'G28'
 
 GCODE_ABSOLUTE_EXTRUSION_COMMAND = 'M82'
 GCODE_RELATIVE_EXTRUSION_COMMAND = 'M83'
@@ -186,6 +187,12 @@ def parse_coordinates(line, split_raw, imperial=False, force=False):
             setattr(line, code, unit_factor * float(bit[1]))
 
 
+def homed_axes(split_raw):
+    """Return the axes homed by a (split) homing command, which are all of them if none is given"""
+    axes = [bit[0] for bit in split_raw[1:] if bit[0] in ("x", "y", "z")]
+    return axes or ["x", "y", "z"]
+
+
 class Layer(list):
     __slots__ = ("duration", "z")
 
@@ -531,15 +538,14 @@ class GCode(object):
                     if z is not None: current_z = z
 
                 elif line.command == "G28":
-                    homed_axes = [bit[0] for bit in split_raw[1:]]
-                    home_all = not any(axis in homed_axes for axis in "xyz")
-                    if home_all or "x" in homed_axes:
+                    homed = homed_axes(split_raw)
+                    if "x" in homed:
                         offset_x = 0
                         current_x = self.home_x
-                    if home_all or "y" in homed_axes:
+                    if "y" in homed:
                         offset_y = 0
                         current_y = self.home_y
-                    if home_all or "z" in homed_axes:
+                    if "z" in homed:
                         offset_z = 0
                         current_z = self.home_z
 
-- 
2.43.0


From 95144408ea491b1d1e5f83f219f2be3c7440134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 30/49] fix: filament extruded by the move changing of layer
 belongs to the new layer

---
 gcodeutils/gcoder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 4a3f4a8..ac00b08 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -575,7 +575,6 @@ class GCode(object):
                             total_e += new_e - current_e
                             current_e = new_e
                         max_e = max(max_e, total_e)
-                        cur_layer_has_extrusion |= line.extruding
                     elif line.command == "G92":
                         offset_e = current_e - line.e
                 line.current_e = current_e
@@ -715,6 +714,10 @@ class GCode(object):
 
                         prev_base_z = base_z
 
+                    # the layer of this line is known only now
+                    if line.is_move and line.extruding:
+                        cur_layer_has_extrusion = True
+
             if build_layers:
                 cur_lines.append(true_line)
                 layer_idxs.append(layer_id)
-- 
2.43.0


From a976adcbafa9667f5cd4224a572f8b38cb6aa1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 31/49] fix: duration of relative moves and of moves after G92
 or G28

---
 gcodeutils/gcoder.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index ac00b08..b88eeec 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -454,10 +454,10 @@ class GCode(object):
             # get device caps from firmware: max speed, acceleration/axis
             # (including extruder)
             # calculate the maximum move duration accounting for above ;)
-            lastx = lasty = lastz = laste = lastf = 0.0
+            lastf = 0.0
             lastdx = 0
             lastdy = 0
-            x = y = e = f = 0.0
+            f = 0.0
             currenttravel = 0.0
             moveduration = 0.0
             totalduration = 0.0
@@ -488,6 +488,8 @@ class GCode(object):
             # Use a heavy copy of the light line to preprocess
             line = get_line(true_line)
             split_raw = split(line)
+            # position before this line, whatever the coordinates modes and offsets
+            lastx, lasty, lastz, laste = current_x, current_y, current_z, current_e
             if line.command:
                 # Update properties
                 if line.is_move:
@@ -599,10 +601,6 @@ class GCode(object):
 
                     # Compute duration
                     if line.command == "G0" or line.command == "G1":
-                        x = line.x if line.x is not None else lastx
-                        y = line.y if line.y is not None else lasty
-                        z = line.z if line.z is not None else lastz
-                        e = line.e if line.e is not None else laste
                         # mm/s vs mm/m => divide by 60
                         f = line.f / 60.0 if line.f is not None else lastf
 
@@ -621,17 +619,17 @@ class GCode(object):
                         # The following code tries to fix it by forcing a full
                         # reacceleration if this move is in the opposite direction
                         # of the previous one
-                        dx = x - lastx
-                        dy = y - lasty
+                        dx = current_x - lastx
+                        dy = current_y - lasty
                         if dx * lastdx + dy * lastdy <= 0:
                             lastf = 0
 
                         currenttravel = math.hypot(dx, dy)
                         if currenttravel == 0:
                             if line.z is not None:
-                                currenttravel = abs(line.z) if line.relative else abs(line.z - lastz)
+                                currenttravel = abs(current_z - lastz)
                             elif line.e is not None:
-                                currenttravel = abs(line.e) if line.relative_e else abs(line.e - laste)
+                                currenttravel = abs(current_e - laste)
                         # Feedrate hasn't changed, no acceleration/decceleration planned
                         if f == lastf:
                             moveduration = currenttravel / f if f != 0 else 0.
@@ -654,10 +652,6 @@ class GCode(object):
 
                         totalduration += moveduration
 
-                        lastx = x
-                        lasty = y
-                        lastz = z
-                        laste = e
                         lastf = f
                     elif line.command == "G4":
                         moveduration = P(line)
-- 
2.43.0


From d5660415925a6b8b994f4999a32c1ced658c482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 32/49] fix: duration of the line changing of layer belongs to
 the new layer

---
 gcodeutils/gcoder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index b88eeec..8f7ef5e 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -582,6 +582,8 @@ class GCode(object):
                 line.current_e = current_e
                 # # Create layers and perform global computations
                 if build_layers:
+                    linebeginduration = totalduration
+
                     # Update bounding box
                     if line.is_move:
                         if line.extruding:
@@ -693,8 +695,9 @@ class GCode(object):
 
                         if base_z != prev_base_z:
                             new_layer = Layer(cur_lines, base_z)
-                            new_layer.duration = totalduration - layerbeginduration
-                            layerbeginduration = totalduration
+                            # this line is already a part of the next layer
+                            new_layer.duration = linebeginduration - layerbeginduration
+                            layerbeginduration = linebeginduration
                             all_layers.append(new_layer)
                             if cur_layer_has_extrusion and prev_z not in all_zs:
                                 all_zs.add(prev_z)
-- 
2.43.0


From 49fb0f94a05b44a49aec0f969c6db58b431f88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 33/49] fix: a travel at the height of a printed layer is not a
 printed layer

---
 gcodeutils/visit/iterator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 03265b4..b2b88f8 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -50,11 +50,14 @@ class GCodeIterator(object):
             try:
                 layer_z = round(parsed_layer.z, self.__digits_of_precision)
                 layer_number = self.__all_zs.index(layer_z)
-                is_printed = True
+                # merely travelling at the height of a printed layer prints nothing
+                is_printed = any(line.extruding for line in parsed_layer)
             except:
-                layer_number = parsed_layer_number
                 is_printed = False
 
+            if not is_printed:
+                layer_number = parsed_layer_number
+
             layer_kind = PRINTED_LAYER_KIND if is_printed else PARSED_LAYER_KIND
             self.__logger.debug(
                 "  visiting %-7s layer %+4s...", layer_kind, layer_number
-- 
2.43.0


From 685eec31ffcd6c856457303d59e9903dcee2703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 34/49] fix: a single pause for a layer left and entered again

---
 gcodeutils/visit/pause_at_layer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/visit/pause_at_layer.py b/gcodeutils/visit/pause_at_layer.py
index bd0993e..c0f4885 100644
--- a/gcodeutils/visit/pause_at_layer.py
+++ b/gcodeutils/visit/pause_at_layer.py
@@ -16,14 +16,24 @@ class PauseAtLayer(GCodeVisitor):
 
     def __init__(self, pause_layer_list):
         self.__pause_layer_list = pause_layer_list
+        self.__paused_layers = set()
+
+    def will_visit_layer(self, layer_as_pyline_list, gcode_iterator_info):
+        """Starts over with each program
+        """
+        if gcode_iterator_info.layer_index == 0:
+            self.__paused_layers = set()
 
     def did_visit_layer(self, layer_as_pyline_list, gcode_iterator_info):
         """Inserts a pause command if the layer matches the list
         """
         is_printed = gcode_iterator_info.is_printed
         is_pause_layer = gcode_iterator_info.layer_number in self.__pause_layer_list
-        should_pause = is_printed and is_pause_layer
+        # a layer is parsed in several parts when the head leaves its height and comes back
+        is_paused = gcode_iterator_info.layer_number in self.__paused_layers
+        should_pause = is_printed and is_pause_layer and not is_paused
         if should_pause:
+            self.__paused_layers.add(gcode_iterator_info.layer_number)
             gcode = gcode_iterator_info.gcode
             layer_index = gcode_iterator_info.layer_index
             commands_to_prepend = [PAUSE_COMMAND]
-- 
2.43.0


From 7d4828ac4bef46d9352fce18cdad381aa18d3620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 35/49] fix: the null vector is false with python 3 too

---
 gcodeutils/stretch/vector3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcodeutils/stretch/vector3.py b/gcodeutils/stretch/vector3.py
index 66ac76f..b330509 100644
--- a/gcodeutils/stretch/vector3.py
+++ b/gcodeutils/stretch/vector3.py
@@ -143,6 +143,8 @@ class Vector3:
     def __nonzero__(self):
         return self.x != 0 or self.y != 0 or self.z != 0
 
+    __bool__ = __nonzero__
+
     def __rdiv__(self, other):
         'Get a new Vector3 by dividing each component of this one.'
         return Vector3(other / self.x, other / self.y, other / self.z)
-- 
2.43.0


From 182ba90778ba30e06cc4596b766cf092a8e42b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 36/49] fix: walls of a Slic3r layer were stretched with points
 of their neighbours

Two consecutive walls of the same type were taken as a single one, and the
last line of a wall was looked for from the end of the previous wall.
---
 gcodeutils/stretch/stretch.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index e1280a4..ebe0743 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -151,6 +151,9 @@ class LineIteratorForwardLegacy(object):
         print('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
+    def is_limit(self, line):
+        return StretchFilter.EXTRUSION_OFF_MARKER in line.raw and self.stop_on_extrusion_off
+
     def index_in_valid_range(self):
         return 0 <= self.line_index < len(self.lines)
 
@@ -168,7 +171,7 @@ class LineIteratorForwardLegacy(object):
                 self.first_visited_index = self.line_index
 
             line = self.lines[self.line_index]
-            if StretchFilter.EXTRUSION_OFF_MARKER in line.raw and self.stop_on_extrusion_off:
+            if self.is_limit(line):
                 self.line_index = self.reset_index_on_limit()
                 continue
 
@@ -205,6 +208,10 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
 
 
 class LineIteratorForward(LineIteratorForwardLegacy):
+    def is_limit(self, line):
+        # the loop may be followed by any line, extrusion is not always turned off by it
+        return StretchFilter.LOOP_STOP_MARKER in line.raw
+
     def reset_index_on_limit(self):
         """Get index just after the activate command."""
         self.logger.debug("reset index forward (modern)")
@@ -235,6 +242,10 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
 
 
 class LineIteratorBackward(LineIteratorBackwardLegacy):
+    def is_limit(self, line):
+        # the start of the loop is looked for by index_setup
+        return False
+
     def index_setup(self):
         if self.line_index < 0:
             self.line_index = self.reset_index_on_limit()
@@ -242,12 +253,13 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
             self.line_index = self.reset_index_on_limit()
 
     def reset_index_on_limit(self):
-        """Get index two lines before the deactivate command."""
+        """Get index two lines before the line following the loop."""
 
         self.logger.debug("reset index backward (modern)")
 
-        for lineIndex in xrange(self.line_index + 1, len(self.lines)):
-            if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
+        # the first line of the loop may have the marker of the end of the previous one
+        for lineIndex in xrange(self.line_index + 2, len(self.lines)):
+            if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
         print('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
@@ -554,7 +566,7 @@ class Slic3rStretchFilter(StretchFilter):
                 logging.debug("found external perimeter inner")
                 line.raw += " ; " + StretchFilter.INNER_EDGE_START_MARKER
 
-            if self.current_type_line != self.EXTERNAL_PERIMETER:
+            if self.current_type_line != self.UNKNOWN:
                 logging.debug("found end of loop")
                 line.raw += " ; " + StretchFilter.LOOP_STOP_MARKER
 
@@ -564,7 +576,7 @@ class Slic3rStretchFilter(StretchFilter):
             logging.debug("found extra perimeter")
             line.raw += " ; " + StretchFilter.LOOP_START_MARKER
 
-            if self.EXTERNAL_PERIMETER == self.current_type_line:
+            if self.current_type_line != self.UNKNOWN:
                 logging.debug("found end of loop")
                 line.raw += " ; " + StretchFilter.LOOP_STOP_MARKER
 
-- 
2.43.0


From a5589897213116e90a870ebc9893262fb965d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 37/49] fix: walls at the end of a Slic3r layer weren't closed

---
 gcodeutils/stretch/stretch.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index ebe0743..e7f10ac 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -212,6 +212,11 @@ class LineIteratorForward(LineIteratorForwardLegacy):
         # the loop may be followed by any line, extrusion is not always turned off by it
         return StretchFilter.LOOP_STOP_MARKER in line.raw
 
+    def index_setup(self):
+        # a loop may last until the end of the layer
+        if self.line_index >= len(self.lines):
+            self.line_index = self.reset_index_on_limit()
+
     def reset_index_on_limit(self):
         """Get index just after the activate command."""
         self.logger.debug("reset index forward (modern)")
@@ -261,8 +266,8 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(self.line_index + 2, len(self.lines)):
             if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
+        # the loop lasts until the end of the layer
+        return len(self.lines) - 2
 
 
 class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
-- 
2.43.0


From a48c2608156514e14c714646bd82f6f031e52469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 38/49] fix: travels between the walls of a Cura layer were
 stretched as their points

---
 gcodeutils/stretch/stretch.py | 41 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index e7f10ac..f521e9c 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -227,17 +227,10 @@ class LineIteratorForward(LineIteratorForwardLegacy):
         raise StopIteration("You've reached the end of the line.")
 
 
-class CuraLineIteratorForward(LineIteratorForwardLegacy):
-    def __init__(self, line_index, lines):
-        super(CuraLineIteratorForward, self).__init__(line_index, lines)
-        self.stop_on_extrusion_off = False
-
-    def index_setup(self):
-        if StretchFilter.LOOP_STOP_MARKER in self.lines[self.line_index].raw:
-            self.line_index = self.reset_index_on_limit()
+class CuraLineIteratorForward(LineIteratorForward):
 
     def reset_index_on_limit(self):
-        """Get index just after the activate command."""
+        """Get index of the first point of the loop."""
         self.logger.debug("reset index forward (modern)")
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
@@ -282,15 +275,15 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
             self.line_index = self.reset_index_on_limit()
 
     def reset_index_on_limit(self):
-        """Get index two lines before the deactivate command."""
+        """Get index of the line before the end of the loop."""
 
         self.logger.debug("reset index backward (modern)")
 
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 1
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
+        # the loop lasts until the end of the layer
+        return len(self.lines) - 1
 
 
 class StretchRepository:
@@ -651,6 +644,8 @@ class Slic3rStretchFilter(StretchFilter):
 
 
 class CuraStretchFilter(StretchFilter):
+    LOOPS_SPAN_LAYERS = False
+
     UNKNOWN = 0
     EXTERNAL_PERIMETER = 1
     EXTRA_PERIMETER = 2
@@ -696,7 +691,7 @@ class CuraStretchFilter(StretchFilter):
 
         for self.current_layer in self.gcode.all_layers:
             self.current_type_line = self.UNKNOWN
-            next_line_marker = None
+            wall_type = None
 
             for line_idx, line in enumerate(self.current_layer):
 
@@ -709,28 +704,32 @@ class CuraStretchFilter(StretchFilter):
                     extruding = False
                     line.raw += " ; " + StretchFilter.EXTRUSION_OFF_MARKER
 
-                if next_line_marker is not None:
-                    self.new_perimeter(line, *next_line_marker)
-                    next_line_marker = None
+                # a wall begins with the first line extruded, a travel ends it
+                is_move = line.command in linear_move_gcodes and (line.x is not None or line.y is not None)
+                if is_move and line.e is None:
+                    self.stop_loop(line)
+                elif is_move and wall_type is not None and self.current_type_line == self.UNKNOWN:
+                    self.new_perimeter(line, *wall_type)
 
                 # checking perimeter type
                 if 'TYPE:WALL-OUTER' in line.raw:
                     self.stop_loop(line)
-                    next_line_marker = (True, True)
+                    wall_type = (True, True)
 
                 elif 'TYPE:WALL-INNER' in line.raw:
                     self.stop_loop(line)
-                    next_line_marker = (True, False)
+                    wall_type = (True, False)
 
                 elif 'TYPE:SKIN' in line.raw:
                     self.stop_loop(line)
-                    next_line_marker = (False, False)
+                    wall_type = (False, False)
 
-                elif 'TYPE:FILL' in line.raw:
+                elif 'TYPE:' in line.raw:
                     self.stop_loop(line)
+                    wall_type = None
 
                 # end loop if we reach the end of the current layer
-                if line_idx == len(self.current_layer) - 1:
+                if line_idx == len(self.current_layer) - 1 and not is_move:
                     self.stop_loop(line)
 
                 # checking for edge width
-- 
2.43.0


From 06757602fbe6a63f24bbba96e44a333ed90477cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 39/49] fix: Skeinforge loops of a single point were walked
 forever

---
 gcodeutils/stretch/stretch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index f521e9c..6fd5eb5 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -135,6 +135,7 @@ class LineIteratorForwardLegacy(object):
         self.first_visited_index = None
         self.lines = lines
         self.increment = 1
+        self.limit_reached = False
         self.stop_on_extrusion_off = True
 
         self.logger.debug("started iterator with line_index = %d", self.line_index)
@@ -172,6 +173,10 @@ class LineIteratorForwardLegacy(object):
 
             line = self.lines[self.line_index]
             if self.is_limit(line):
+                if self.limit_reached:
+                    self.logger.debug("the whole loop has been visited")
+                    raise StopIteration("You've reached the end of the line.")
+                self.limit_reached = True
                 self.line_index = self.reset_index_on_limit()
                 continue
 
-- 
2.43.0


From b945bf3c38e4673f33d1916c75bbab170cce892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 40/49] fix: stretch invented a feedrate of 959 mm/min

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 6fd5eb5..40d8766 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -326,7 +326,7 @@ class StretchFilter:
     def __init__(self, **kwargs):
         self.edgeWidth = 0.4
         self.extruderActive = False
-        self.feedRateMinute = 959.0
+        self.feedRateMinute = None
         self.isLoop = False
         self.oldLocation = None
         self.gcode = None
-- 
2.43.0


From 4366f73cd6732cebdfb61a749cdc7e641484c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 41/49] fix: stretch ignored the feedrate and the position of
 arcs

---
 gcodeutils/stretch/stretch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 40d8766..9e34319 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -94,7 +94,7 @@ import zlib
 
 import re
 
-from gcodeutils.gcoder import split, Line, parse_coordinates, unsplit, linear_move_gcodes
+from gcodeutils.gcoder import split, Line, parse_coordinates, unsplit, linear_move_gcodes, move_gcodes
 from .vector3 import Vector3
 
 __author__ = 'Enrique Perez (perez_enrique@yahoo.com)'
@@ -513,7 +513,7 @@ class StretchFilter:
             return self.stretch_line(line)
 
         # keep track of the moves outside of loops
-        if line.command in linear_move_gcodes:
+        if line.command in move_gcodes:
             self.feedRateMinute = line.f or self.feedRateMinute
             self.oldLocation = get_location_from_line(self.oldLocation, line)
 
-- 
2.43.0


From 331c99461b10630094493c9425d91e36d2df8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 42/49] fix: walls of a single point or broken by another line
 were walked forever

---
 gcodeutils/stretch/stretch.py | 55 ++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 9e34319..0eb30d6 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -141,7 +141,10 @@ class LineIteratorForwardLegacy(object):
         self.logger.debug("started iterator with line_index = %d", self.line_index)
 
     def index_setup(self):
-        pass
+        """Called before looking for the next point."""
+
+    def line_setup(self):
+        """Called before reading a line."""
 
     def reset_index_on_limit(self):
         """Get index just after the activate command."""
@@ -152,6 +155,14 @@ class LineIteratorForwardLegacy(object):
         print('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
+    def go_to_other_end(self):
+        """Go on at the other end of the loop, once."""
+        if self.limit_reached:
+            self.logger.debug("the whole loop has been visited")
+            raise StopIteration("You've reached the end of the line.")
+        self.limit_reached = True
+        self.line_index = self.reset_index_on_limit()
+
     def is_limit(self, line):
         return StretchFilter.EXTRUSION_OFF_MARKER in line.raw and self.stop_on_extrusion_off
 
@@ -163,7 +174,11 @@ class LineIteratorForwardLegacy(object):
 
         self.index_setup()
 
-        while self.index_in_valid_range():
+        while True:
+
+            self.line_setup()
+            if not self.index_in_valid_range():
+                break
 
             if self.line_index == self.first_visited_index:
                 self.logger.debug("infinite looping detected")
@@ -173,11 +188,7 @@ class LineIteratorForwardLegacy(object):
 
             line = self.lines[self.line_index]
             if self.is_limit(line):
-                if self.limit_reached:
-                    self.logger.debug("the whole loop has been visited")
-                    raise StopIteration("You've reached the end of the line.")
-                self.limit_reached = True
-                self.line_index = self.reset_index_on_limit()
+                self.go_to_other_end()
                 continue
 
             self.line_index += self.increment
@@ -198,7 +209,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
 
     def index_setup(self):
         if self.line_index < 1:
-            self.line_index = self.reset_index_on_limit()
+            self.go_to_other_end()
 
     def reset_index_on_limit(self):
         """Get index two lines before the deactivate command."""
@@ -217,10 +228,10 @@ class LineIteratorForward(LineIteratorForwardLegacy):
         # the loop may be followed by any line, extrusion is not always turned off by it
         return StretchFilter.LOOP_STOP_MARKER in line.raw
 
-    def index_setup(self):
+    def line_setup(self):
         # a loop may last until the end of the layer
         if self.line_index >= len(self.lines):
-            self.line_index = self.reset_index_on_limit()
+            self.go_to_other_end()
 
     def reset_index_on_limit(self):
         """Get index just after the activate command."""
@@ -250,10 +261,13 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
         return False
 
     def index_setup(self):
+        pass
+
+    def line_setup(self):
         if self.line_index < 0:
-            self.line_index = self.reset_index_on_limit()
+            self.go_to_other_end()
         elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
-            self.line_index = self.reset_index_on_limit()
+            self.go_to_other_end()
 
     def reset_index_on_limit(self):
         """Get index two lines before the line following the loop."""
@@ -263,9 +277,13 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
         # the first line of the loop may have the marker of the end of the previous one
         for lineIndex in xrange(self.line_index + 2, len(self.lines)):
             if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
-                return lineIndex - 2
-        # the loop lasts until the end of the layer
-        return len(self.lines) - 2
+                break
+        else:
+            # the loop lasts until the end of the layer
+            lineIndex = len(self.lines)
+        if lineIndex - 2 <= self.line_index:
+            raise StopIteration("You've reached the end of the line.")
+        return lineIndex - 2
 
 
 class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
@@ -274,10 +292,13 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
         self.stop_on_extrusion_off = False
 
     def index_setup(self):
+        pass
+
+    def line_setup(self):
         if self.line_index < 0:
-            self.line_index = self.reset_index_on_limit()
+            self.go_to_other_end()
         elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
-            self.line_index = self.reset_index_on_limit()
+            self.go_to_other_end()
 
     def reset_index_on_limit(self):
         """Get index of the line before the end of the loop."""
-- 
2.43.0


From 31a9f1acbd5609c062489e999d55e39acdcb0ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 43/49] fix: visiting a program extruding before its first
 height raised TypeError

---
 gcodeutils/visit/iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index b2b88f8..348cccf 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -35,7 +35,7 @@ class GCodeIterator(object):
         self.__digits_of_precision = digits_of_precision
         self.__logger = logging.getLogger(LOGGER_NAME)
         self.__all_zs = sorted(
-            [round(z, self.__digits_of_precision) for z in self.__gcode.all_zs]
+            [round(z, self.__digits_of_precision) for z in self.__gcode.all_zs if z is not None]
         )
         self.__logger.debug("  all_zs: %s", self.__all_zs)
         self.__logger.debug("  %s layers: %s", PRINTED_LAYER_KIND, len(self.__all_zs))
-- 
2.43.0


From fd952c368a5d1ba003ded0b3be10703fff5c15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 44/49] fix: G92 without coordinates kept the height of the
 layer

---
 gcodeutils/gcoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 8f7ef5e..fac7241 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -670,6 +670,9 @@ class GCode(object):
                                 cur_z += line.z
                             else:
                                 cur_z = line.z
+                    elif line.command == "G92" and line.x is None and line.y is None and line.e is None:
+                        # no coordinate given is equivalent to all 0
+                        cur_z = 0
 
                     # FIXME: the logic behind this code seems to work, but it might be
                     # broken
-- 
2.43.0


From 0dc4a88ebf4234e01f4667a35e804b6ce04fa169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 45/49] fix: comments were lost by rewritten lines,
 gcode_stretch did not see the walls of Slic3r programs with absolute
 extrusion

---
 gcodeutils/gcoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index fac7241..ae8c0d4 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -171,7 +171,11 @@ def unsplit(line):
         if getattr(line, bit) is not None:
             format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
             arg += [bit.upper(), getattr(line, bit) / unit_factor]
+    # slicers describe the line in its comment
+    comment = line.raw.partition(";") if line.raw else ("", "", "")
     line.raw = line.command + format.format(*arg)
+    if comment[1]:
+        line.raw += " ;" + comment[2]
 
 
 def parse_coordinates(line, split_raw, imperial=False, force=False):
-- 
2.43.0


From 2080792ab75bd99f8a2ed81432c48ea3245bcb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 46/49] fix: the Cura plugin emptied the programs it refused

---
 cura_plugins/tempcal_plugin.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cura_plugins/tempcal_plugin.py b/cura_plugins/tempcal_plugin.py
index 3763db5..88180c6 100644
--- a/cura_plugins/tempcal_plugin.py
+++ b/cura_plugins/tempcal_plugin.py
@@ -13,12 +13,21 @@
 import sys
 sys.path.append('plugins')
 
+try:
+    from StringIO import StringIO
+except ImportError:
+    from io import StringIO
+
 from gcodeutils.gcode_tempcal import GCodeStepTempGradient
 from gcodeutils.gcoder import GCode
 
 with open(filename, 'r') as gcode_file:  # pylint: disable=undefined-variable
     gcode = GCode(gcode_file)  # pylint: disable=redefined-outer-name,invalid-name
 
+# only replace the program once it is known to be usable
+result = StringIO()  # pylint: disable=invalid-name
+GCodeStepTempGradient(gcode=gcode, start_temp=start_temp, end_temp=end_temp, min_z_change=min_z_change,
+                      steps=steps).write(result)
+
 with open(filename, 'w') as gcode_file:  # pylint: disable=undefined-variable
-    GCodeStepTempGradient(gcode=gcode, start_temp=start_temp, end_temp=end_temp, min_z_change=min_z_change,
-                          steps=steps).write(gcode_file)
+    gcode_file.write(result.getvalue())
-- 
2.43.0


From 5da7bccb7912ce06fea978270693f65557fe557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 47/49] fix: a comment in parentheses before a command hid the
 command

---
 gcodeutils/gcoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index ae8c0d4..d462b81 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -145,6 +145,9 @@ def raw_to_line(raw):
 
 def split(line):
     split_raw = gcode_exp.findall(line.raw.lower())
+    # the command comes after the number of the line and comments
+    while len(split_raw) > 1 and split_raw[0][0] in ("", "n"):
+        del split_raw[0]
     if split_raw and split_raw[0][0] == "n":
         del split_raw[0]
     if not split_raw:
-- 
2.43.0


From 06d7a9597b0cc97e28bb9c1d1cc27ae5dd881539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 48/49] fix: arguments of lower case pauses were not read

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index d462b81..7ba0784 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -122,7 +122,7 @@ LightLine = PyLightLine
 
 def find_specific_code(line, code):
     exp = specific_exp % code
-    bits = [bit for bit in re.findall(exp, line.raw) if bit]
+    bits = [bit for bit in re.findall(exp, line.raw, re.IGNORECASE) if bit]
     if not bits:
         return None
     else:
-- 
2.43.0


From 26358df5d24914f7751d81695cab09e53323d4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 49/49] fix: the gcoder command failed to open files with
 recent versions of Python

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 7ba0784..02dc3bc 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -870,7 +870,7 @@ def main():
 
     print("Line object size:", sys.getsizeof(Line("G0 X0")))
     print("Light line object size:", sys.getsizeof(LightLine("G0 X0")))
-    gcode = GCode(open(sys.argv[1], "rU"))
+    gcode = GCode(open(sys.argv[1]))
 
     print("Dimensions:")
     xdims = (gcode.xmin, gcode.xmax, gcode.width)
-- 
2.43.0

