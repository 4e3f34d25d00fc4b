From 71564ea34495a736cb6c3ef4cdbdcde5012ed8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 01/98] fix: DOMRect.transform_self() took the maximum over
 overwritten corners

---
 svgpy/geometry/rect.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 4caf1a3..f15bb45 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -536,11 +536,10 @@ class DOMRect(DOMRectReadOnly):
         x2, y2 = matrix.transform_point(x2, y2)
         x3, y3 = matrix.transform_point(x3, y3)
         x4, y4 = matrix.transform_point(x4, y4)
-        x1 = min(x1, x2, x3, x4)
-        y1 = min(y1, y2, y3, y4)
-        x3 = max(x1, x2, x3, x4)
-        y3 = max(y1, y2, y3, y4)
-        self.set_coords(x1, y1, x3, y3)
+        self.set_coords(min(x1, x2, x3, x4),
+                        min(y1, y2, y3, y4),
+                        max(x1, x2, x3, x4),
+                        max(y1, y2, y3, y4))
         return self
 
     def translate_self(self, dx, dy):
-- 
2.43.0


From f64ee0ebebab815a748e40deabce95514b541ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 02/98] fix: PathParser.parse() dropped a closepath directly
 followed by another command

---
 svgpy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 8bccd28..0beaef3 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1173,7 +1173,7 @@ class PathParser(object):
     # See https://svgwg.org/specs/paths/#PathDataCatmullRomCommand
     RE_PATH_SEGMENT_LIST = re.compile(
         r"((?P<type>[AaBbCcHhLlMmQqSsTtVvZz])\s*"
-        r"(?P<values>([^AaBbCcHhLlMmQqSsTtVvZz]|$)+))")
+        r"(?P<values>[^AaBbCcHhLlMmQqSsTtVvZz]*))")
 
     RE_NUMBER_SEQUENCE = re.compile(
         r"(?P<number>[+-]?"
-- 
2.43.0


From a669904aefa80f90d527e45bad322860680c6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 03/98] fix: PathParser.parse() misread elliptical arc flags
 written without separators

---
 svgpy/path.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 0beaef3..a74990e 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1180,6 +1180,10 @@ class PathParser(object):
         r"((\d+(\.\d*)?([Ee][+-]?\d+)?)|(\d*\.\d+([Ee][+-]?\d+)?)))"
         r"(\s*,\s*|\s+)?")
 
+    # The flags of an elliptical arc need no separator after them.
+    RE_ELLIPTICAL_ARC_FLAGS = re.compile(
+        r"(?P<fa>[01])(\s*,\s*|\s+)?(?P<fs>[01])(\s*,\s*|\s+)?")
+
     PATH_SEGMENT_TYPES = 'AaBbCcHhLlMmQqSsTtVvZz'
 
     _PATH_SEGMENT_VALUES_LENGTH = {
@@ -1195,6 +1199,25 @@ class PathParser(object):
         'V': 1,
     }
 
+    @staticmethod
+    def _parse_number_sequence(path_type, values):
+        number_sequence = list()
+        pos = 0
+        while True:
+            if path_type in 'Aa' and len(number_sequence) % 7 == 3:
+                it = PathParser.RE_ELLIPTICAL_ARC_FLAGS.match(values, pos)
+                if it is None:
+                    break
+                number_sequence.append(float(it.group('fa')))
+                number_sequence.append(float(it.group('fs')))
+            else:
+                it = PathParser.RE_NUMBER_SEQUENCE.search(values, pos)
+                if it is None:
+                    break
+                number_sequence.append(float(it.group('number')))
+            pos = it.end()
+        return number_sequence
+
     @staticmethod
     def from_glyph(face, matrix=None):
         """Creates a list of path segments from specified glyph outlines
@@ -1484,10 +1507,8 @@ class PathParser(object):
                 values = it.group('values').strip()
                 args_sequence = list()
                 if len(values) > 0:
-                    number_sequence = list()
-                    for it2 in PathParser.RE_NUMBER_SEQUENCE.finditer(values):
-                        number = it2.group('number')
-                        number_sequence.append(float(number))
+                    number_sequence = PathParser._parse_number_sequence(
+                        path_type, values)
                     argc = PathParser._PATH_SEGMENT_VALUES_LENGTH.get(
                         path_type.upper())
                     args_sequence = zip(*[iter(number_sequence)] * argc)
-- 
2.43.0


From 0b83c44424d9893de3df49e04bee76bf3647a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 04/98] fix: smooth curves reflected the wrong control point
 after a segment of another type

---
 svgpy/path.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index a74990e..111a7dc 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -840,12 +840,8 @@ class PathSegment(object):
             # smooth cubic bezier curveto: 'S'|'s' (x2,y2 x,y)+
             if path_type == 'C':
                 _, _, x2, y2, x, y = abs_path_segment.values
-            elif (path_type == 'S'
-                  and last_path_type is not None and last_path_type in 'CcSs'):
-                x2, y2, x, y = abs_path_segment.values
             else:
-                x2, y2 = cpx, cpy
-                x, y = abs_path_segment.end
+                x2, y2, x, y = abs_path_segment.values
             next_x1 = 2 * x - x2
             next_y1 = 2 * y - y2
             return next_x1, next_y1
@@ -1199,6 +1195,18 @@ class PathParser(object):
         'V': 1,
     }
 
+    @staticmethod
+    def _get_first_control_point(command, last_command, cpx, cpy, x1, y1):
+        # S/s/T/t: the reflection of the last control point counts only after
+        # a curve of the same degree
+        if (command in 'Ss'
+                and (last_command is None or last_command not in 'CcSs')):
+            return cpx, cpy
+        elif (command in 'Tt'
+                and (last_command is None or last_command not in 'QqTt')):
+            return cpx, cpy
+        return x1, y1
+
     @staticmethod
     def _parse_number_sequence(path_type, values):
         number_sequence = list()
@@ -1377,6 +1385,8 @@ class PathParser(object):
                 # quadratic bezier curveto: 'Q'|'q' (x1,y1 x,y)+
                 # vertical lineto: 'V'|'v' y+
                 old_cpx, old_cpy = cpx, cpy
+                x1, y1 = PathParser._get_first_control_point(
+                    command, last_command, cpx, cpy, x1, y1)
                 length, (cpx, cpy) = PathSegment.get_length(path_segment,
                                                             cpx, cpy, bearing,
                                                             x1=x1, y1=y1)
@@ -1456,6 +1466,8 @@ class PathParser(object):
                 # smooth quadratic bezier curveto: 'T'|'t' (x,y)+
                 # vertical lineto: 'V'|'v' y+
                 # pathclose: 'Z'|'z'
+                x1, y1 = PathParser._get_first_control_point(
+                    command, last_command, cpx, cpy, x1, y1)
                 normalized = PathSegment.normalize(path_segment,
                                                    cpx, cpy, bearing,
                                                    x1=x1, y1=y1)
-- 
2.43.0


From 7f2fa03655dc635b0a8c5fd231111cb78634d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 05/98] fix: PathParser.normalize() failed on an arc that ends
 at the current point

---
 svgpy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 111a7dc..b0e147d 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1478,14 +1478,14 @@ class PathParser(object):
                     x1, y1 = PathSegment.get_next_control_point(
                         path_segment, cpx, cpy, bearing, last_command,
                         x1=x1, y1=y1)
-                else:
+                elif len(normalized) > 0:
                     x1, y1 = normalized[-1].end
 
                 if command in 'Zz':
                     if start_x is not None and start_y is not None:
                         cpx = start_x
                         cpy = start_y
-                else:
+                elif len(normalized) > 0:
                     cpx, cpy = normalized[-1].end
                     if ((command in 'Mm'
                          and (last_command is None
-- 
2.43.0


From 6d0f8f4eeec6a9dc1101435fde5adb934be798e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 06/98] fix: the length of a cubic Bezier curve with a
 stationary point raised a math domain error

---
 svgpy/path.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index b0e147d..7f72021 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -61,7 +61,9 @@ class CubicBezierCurve(object):
     def _get_length_integrand(t, c0, c1, c2, c3, c4):
         # use Hartmut Henkel method
         # See http://www.circuitwizard.de/metapost/arclength.pdf
-        return math.sqrt(c4 * t ** 4 + c3 * t ** 3 + c2 * t ** 2 + c1 * t + c0)
+        # a sum of squares: negative only by rounding
+        return math.sqrt(max(
+            c4 * t ** 4 + c3 * t ** 3 + c2 * t ** 2 + c1 * t + c0, 0))
 
     def get_bbox(self, options=None, **extra):
         """Returns the bounding box of the cubic bezier curve.
-- 
2.43.0


From 3cf68410abf02267999e190153e823c277ca088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 07/98] fix: DOMRect.unite() ignored the extent of a horizontal
 or vertical line, so path bounding boxes lost it

---
 svgpy/geometry/rect.py | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index f15bb45..41e9b9a 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -579,32 +579,10 @@ class DOMRect(DOMRectReadOnly):
         """
         if x is None or y is None:
             return self
-        elif self.contains(x, y, width, height):
-            return self
-
         x1, y1, x2, y2 = self.get_coords()
-
-        if x1 is None or x < x1:
-            x1 = x
-        elif x > x2:
-            x2 = x
-
-        if y1 is None or y < y1:
-            y1 = y
-        elif y > y2:
-            y2 = y
-
-        if width > 0 and height > 0:
-            right = x + width
-            bottom = y + height
-            if x2 is None or right > x2:
-                x2 = right
-            if y2 is None or bottom > y2:
-                y2 = bottom
-
-        if x2 is not None and y2 is not None:
-            self.set_coords(x1, y1, x2, y2)
-        else:
-            self._x = x1
-            self._y = y1
+        right = x + max(width, 0)
+        bottom = y + max(height, 0)
+        x1, x2 = (x, right) if x1 is None else (min(x1, x), max(x2, right))
+        y1, y2 = (y, bottom) if y1 is None else (min(y1, y), max(y2, bottom))
+        self.set_coords(x1, y1, x2, y2)
         return self
-- 
2.43.0


From f1dcebb144f559879a351e725d95a1478a54d6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 08/98] fix: cubic Bezier extrema were lost to cancellation
 where the cubic term almost vanishes

---
 svgpy/path.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 7f72021..efa40bc 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -130,11 +130,6 @@ class CubicBezierCurve(object):
 
     def get_roots(self):
         # See http://floris.briolas.nl/floris/2009/10/bounding-box-of-cubic-bezier/
-        def _solve(_a, _b, _c, _s):
-            # {-b + sqrt(b^2 - 4ac) / (2a)} or {-b - sqrt(b^2 - 4ac) / (2a)}
-            s = 1 if _s else -1
-            return (-_b + s * math.sqrt(_b ** 2 - 4 * _a * _c)) / (2 * _a)
-
         roots = list()
         coefficients = self.get_coefficients()
         a = 3 * coefficients[0]
@@ -144,13 +139,12 @@ class CubicBezierCurve(object):
             d = b[i] ** 2 - 4 * a[i] * c[i]
             if d < 0:
                 continue
-            if a[i] == 0 and b[i] != 0:
-                roots.append(-c[i] / b[i])
-            elif d == 0 and a[i] != 0:
-                roots.append(_solve(a[i], b[i], c[i], True))
-            elif a[i] != 0:
-                roots.append(_solve(a[i], b[i], c[i], True))
-                roots.append(_solve(a[i], b[i], c[i], False))
+            # avoid the cancellation of -b +/- sqrt(d) where a is almost zero
+            q = -(b[i] + math.copysign(math.sqrt(d), b[i])) / 2
+            if a[i] != 0:
+                roots.append(q / a[i])
+            if q != 0:
+                roots.append(c[i] / q)
         return filter(lambda t: 0 <= t <= 1, roots)
 
     def point(self, t):
-- 
2.43.0


From 9cec4358dd572b30b83a47e536c42c86160a49a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 09/98] fix: transforming an elliptical arc left its radii,
 rotation and sweep untransformed

---
 svgpy/path.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/svgpy/path.py b/svgpy/path.py
index efa40bc..7cb2a08 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1122,6 +1122,22 @@ class PathSegment(object):
             # 'A'|'a' (rx,ry x-axis-rotation large-arc-flag sweep-flag x,y)+
             rx, ry, x_axis_rotation, fa, fs, x, y = abs_path_segment.values
             x, y = matrix.transform_point(x, y)
+            if (matrix.a, matrix.b, matrix.c, matrix.d) != (1, 0, 0, 1):
+                # the image of the ellipse
+                r = math.radians(x_axis_rotation)
+                m = np.array(
+                    [[matrix.a, matrix.c], [matrix.b, matrix.d]]).dot(
+                    np.array(
+                        [[math.cos(r), -math.sin(r)],
+                         [math.sin(r), math.cos(r)]])).dot(
+                    np.array(
+                        [[rx, 0], [0, ry]]))
+                u, (rx, ry), _ = np.linalg.svd(m)
+                if not math.isclose(rx, ry):
+                    x_axis_rotation = math.degrees(
+                        math.atan2(u.item(1, 0), u.item(0, 0)))
+                if matrix.a * matrix.d - matrix.b * matrix.c < 0:
+                    fs = 0 if fs else 1
             # x_axis_rotation += matrix.get_angle()
             return SVGPathSegment('A', rx, ry, x_axis_rotation, fa, fs, x, y)
         elif path_type == 'C':
-- 
2.43.0


From 19e93753c71c05f55d2ba0411778b2c256aa7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 10/98] fix: PathParser.transform() lost the current point
 after an absolute horizontal or vertical lineto

---
 svgpy/path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 7cb2a08..9b9d6b2 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1593,7 +1593,10 @@ class PathParser(object):
                                                               bearing)
                 else:
                     abs_path_segment = path_segment
-                cpx, cpy = abs_path_segment.end
+                end_x, end_y = abs_path_segment.end
+                # a horizontal or vertical lineto has one coordinate only
+                cpx = end_x if end_x is not None else cpx
+                cpy = end_y if end_y is not None else cpy
                 if ((command in 'Mm'
                      and (last_command is None or last_command not in 'Mm'))
                         or (start_x is None or start_y is None)):
-- 
2.43.0


From 2ea028aae828f21c364c4051664f9a458d605669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 11/98] fix: Element.prepend() reversed the nodes on an empty
 element and misplaced them after the first child

---
 svgpy/dom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c00e78e..b1b9da5 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2198,7 +2198,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
-        first_child = self.first_child
+        first_child = next(
+            (child for child in self if child not in nodes), None)
         data = ''
         target = self
         text = '' if self.text is None else self.text
@@ -2216,7 +2217,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             node.attach_document(self.owner_document)
             if first_child is None:
                 super().append(node)
-                first_child = node
             else:
                 first_child.addprevious(node)
             target = node
-- 
2.43.0


From fa431dca78790accfedb99ce14e17e7c214a2542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 12/98] fix: Element.append() put a string before the existing
 children

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index b1b9da5..96c843f 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1600,7 +1600,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             *nodes (Node, str, ...): A list of nodes to be added.
         """
         data = ''
-        target = self
+        target = self if len(self) == 0 else self.last_child
         for node in nodes:
             if isinstance(node, str):
                 data += node
-- 
2.43.0


From 28092cab3588a32f34ab28aaa180263b61274160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 13/98] fix: Element.extend() lost the nodes of a one-shot
 iterable

---
 svgpy/dom.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 96c843f..0aca36c 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1732,11 +1732,13 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
         Extends the current children by the nodes in the iterable.
         """
-        owner_document = self.owner_document
+        nodes = list(nodes)
         for node in nodes:
             self.ensure_pre_insertion_validity(node)
-            node.attach_document(owner_document)
+        owner_document = self.owner_document
         super().extend(nodes)
+        for node in nodes:
+            node.attach_document(owner_document)
 
     def get_attribute(self, qualified_name):
         """Returns an attribute's value with the specified name.
-- 
2.43.0


From 8d1a669452b76a1bd0eccc030554283bddc86a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 14/98] fix: a failed insertion changed the owner document of
 the node

---
 svgpy/dom.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 0aca36c..5a5a174 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1218,8 +1218,8 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addnext(node)
+        node.attach_document(self.owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.CommentBase.addprevious().
@@ -1233,8 +1233,8 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addprevious(node)
+        node.attach_document(self.owner_document)
 
     def append(self, node):
         """Reimplemented from lxml.etree.CommentBase.append().
@@ -1575,8 +1575,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addnext(node)
+        node.attach_document(self.owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.ElementBase.addprevious().
@@ -1590,8 +1590,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addprevious(node)
+        node.attach_document(self.owner_document)
 
     def append(self, *nodes):
         """Inserts sub-nodes after the last child node.
@@ -1610,8 +1610,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 tail = False if target == self else True
                 node_append_data(target, data, tail)
                 data = ''
-            node.attach_document(self.owner_document)
             super().append(node)
+            node.attach_document(self.owner_document)
             target = node
 
         if len(data) > 0:
@@ -2151,8 +2151,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Inserts a sub-node at the given position in this node.
         """
         self.ensure_pre_insertion_validity(node)
-        node.attach_document(self.owner_document)
         super().insert(index, node)
+        node.attach_document(self.owner_document)
 
     def insert_before(self, node, child):
         """Inserts a node into a parent before a child.
@@ -2216,11 +2216,11 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 tail = False if target == self else True
                 node_prepend_data(target, data, tail)
                 data = ''
-            node.attach_document(self.owner_document)
             if first_child is None:
                 super().append(node)
             else:
                 first_child.addprevious(node)
+            node.attach_document(self.owner_document)
             target = node
 
         tail = False if target == self else True
@@ -2306,8 +2306,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         """
         self.ensure_pre_insertion_validity(new_node, old_node)
         self.ensure_pre_remove_validity(old_node)
-        new_node.attach_document(self.owner_document)
         super().replace(old_node, new_node)
+        new_node.attach_document(self.owner_document)
 
     def replace_child(self, node, child):
         """Replaces a child with node.
@@ -2522,8 +2522,8 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addnext(node)
+        node.attach_document(self.owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.PIBase.addprevious().
@@ -2537,8 +2537,8 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addprevious(node)
+        node.attach_document(self.owner_document)
 
     def append(self, node):
         """Reimplemented from lxml.etree.PIBase.append().
-- 
2.43.0


From d7587a2c85f5fb169a4930c9881ac88afc3854a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 15/98] fix: Element.extend() attached the document only to all
 or none of the nodes

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 5a5a174..b996177 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1736,8 +1736,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         for node in nodes:
             self.ensure_pre_insertion_validity(node)
         owner_document = self.owner_document
-        super().extend(nodes)
         for node in nodes:
+            super().append(node)
             node.attach_document(owner_document)
 
     def get_attribute(self, qualified_name):
-- 
2.43.0


From 3e2b2544f34561c78a05d2b2707ee1d3f806dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 16/98] fix: Document.prepend() misplaced nodes on an empty
 document and before a moved first child

---
 svgpy/window.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 2354e84..6fd718b 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -572,7 +572,8 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
             *nodes (Node, str, ...): A list of nodes to be added.
         """
         root = self._document_element
-        first_child = None
+        first_child = next((child for child in self.child_nodes
+                            if child == root or child not in nodes), None)
         for node in nodes:
             if isinstance(node, str):
                 raise HierarchyRequestError(
@@ -580,14 +581,11 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
                     "'{}'".format('#text',
                                   self.__class__.__name__))
             self.ensure_pre_insertion_validity(node)
-            if root is None:
+            if first_child is None:
                 self.append(node)
-                root = node
             elif node == root:
                 continue  # do nothing
             else:
-                if first_child is None:
-                    first_child = self.first_child
                 first_child.addprevious(node)
 
     def query_selector_all(self, selectors):
-- 
2.43.0


From 2a203d00a5ba706f9b8ce434e49a7fa322c9f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 17/98] fix: Document.append() left a new document element
 inside its previous parent

---
 svgpy/window.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/window.py b/svgpy/window.py
index 6fd718b..f81bd6a 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -253,6 +253,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
                 if not isinstance(node, Element):
                     raise HierarchyRequestError(
                         "The Element node must be insert first")
+                node.remove()  # from the current parent
                 node.attach_document(self)
                 root = self._document_element = node
             elif node == root:
-- 
2.43.0


From ca342a0fe01c431df8799a5406a6ad377579fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 18/98] fix: Document.insert() past the last child raised
 IndexError

---
 svgpy/window.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgpy/window.py b/svgpy/window.py
index f81bd6a..97125b1 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -519,6 +519,9 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
             pass  # do nothing
         else:
             children = self.child_nodes
+            if index >= len(children):
+                self.append(node)
+                return
             children[index].addprevious(node)
 
     def insert_before(self, node, child):
-- 
2.43.0


From 73e5e801ccdb3058dbaea82f0426dda7b8bed9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 19/98] fix: Document.replace() of a node with itself removed
 the node

---
 svgpy/window.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 97125b1..4b96b23 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -631,7 +631,9 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         self.ensure_pre_insertion_validity(new_node, old_node)
         self.ensure_pre_remove_validity(old_node)
         root = self._document_element
-        if old_node == root:
+        if old_node == new_node:
+            return
+        elif old_node == root:
             self.remove(old_node)
             self.append(new_node)
             return
-- 
2.43.0


From 1a33c9c7a80056a543d01ef48324c545015fce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 20/98] fix: get_root_node() of a detached node was the root of
 the tree it came from

---
 svgpy/dom.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index b996177..fa8e49d 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -56,6 +56,19 @@ def node_append_data(node, data, tail=True):
         node.text = text
 
 
+def node_get_root(node):
+    root = node
+    for root in node.iterancestors():
+        pass
+    if root.node_type != Node.ELEMENT_NODE:
+        # a sibling of the document element
+        for preceding in (True, False):
+            for sibling in root.itersiblings(preceding=preceding):
+                if sibling.node_type == Node.ELEMENT_NODE:
+                    return sibling
+    return root
+
+
 def node_insert_before(parent, node, child=None):
     """Inserts a node into a parent before a child.
 
@@ -1267,10 +1280,7 @@ class Comment(etree.CommentBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.CommentBase.insert().
@@ -2110,10 +2120,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def has_attribute(self, qualified_name):
         """Returns True if an attribute with the specified name exists;
@@ -2571,10 +2578,7 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.PIBase.insert().
-- 
2.43.0


From bdc05c67a0010553b79b31fcb5361ce91dcc12a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 21/98] fix: a failed Element.prepend() lost the text of the
 element

---
 svgpy/dom.py | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index fa8e49d..3564267 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2212,29 +2212,32 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         data = ''
         target = self
         text = '' if self.text is None else self.text
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
         if len(text) > 0:
             self.text = ''
-        for node in nodes:
-            if isinstance(node, str):
-                data += node
-                continue
-            self.ensure_pre_insertion_validity(node)
+        try:
+            for node in nodes:
+                if isinstance(node, str):
+                    data += node
+                    continue
+                if len(data) > 0:
+                    tail = False if target == self else True
+                    node_prepend_data(target, data, tail)
+                    data = ''
+                if first_child is None:
+                    super().append(node)
+                else:
+                    first_child.addprevious(node)
+                node.attach_document(self.owner_document)
+                target = node
+        finally:
+            tail = False if target == self else True
             if len(data) > 0:
-                tail = False if target == self else True
                 node_prepend_data(target, data, tail)
-                data = ''
-            if first_child is None:
-                super().append(node)
-            else:
-                first_child.addprevious(node)
-            node.attach_document(self.owner_document)
-            target = node
-
-        tail = False if target == self else True
-        if len(data) > 0:
-            node_prepend_data(target, data, tail)
-        if len(text) > 0:
-            node_append_data(target, text, tail)
+            if len(text) > 0:
+                node_append_data(target, text, tail)
 
     def query_selector_all(self, selectors):
         nsmap = self.nsmap.copy()
-- 
2.43.0


From e9c4c3f97a46b082a9681678e6aa9e902ccfbcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 22/98] fix: a detached or moved tree was styled, measured and
 resolved in the tree it came from

---
 svgpy/core.py    | 2 +-
 svgpy/element.py | 2 +-
 svgpy/style.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 3adf08b..6389c2b 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1358,7 +1358,7 @@ class SVGLength(object):
             if self._context is None:
                 root_font_size = Decimal(Font.default_font_size)
             else:
-                root = self._context.getroottree().getroot()
+                root = self._context.get_root_node()
                 root_font_size = Decimal(CSSUtils.compute_font_size(root))
 
         if (self._unit in [SVGLength.TYPE_EMS, SVGLength.TYPE_PERCENTAGE,
diff --git a/svgpy/element.py b/svgpy/element.py
index ddc2e7a..66b2ef3 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1044,7 +1044,7 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         elif href[0] != '#':
             # TODO: support external link.
             raise NotImplementedError(href)
-        root = self.getroottree().getroot()
+        root = self.get_root_node()
         element = root.get_element_by_id(href[1:])
         return element
 
diff --git a/svgpy/style.py b/svgpy/style.py
index ff8998c..4971778 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -138,7 +138,7 @@ def get_css_style_sheets(element):
     css_style_sheet.insert_rule(_SVG_UA_CSS_STYLESHEET)
     style_sheets.append(css_style_sheet)
 
-    root = element.getroottree().getroot()
+    root = element.get_root_node()
 
     # xml-stylesheet
     style_sheets.extend(get_css_style_sheets_from_xml_stylesheet(root))
-- 
2.43.0


From 1c22ab4645bc9eb3c66a17c27bcfeb6ecb575635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 23/98] fix: Document.tostring() wrote the tree its document
 element came from

---
 svgpy/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 4b96b23..11f1946 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -666,7 +666,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         root = self._document_element
         if root is None:
             return b''
-        return etree.tostring(root.getroottree(), **kwargs)
+        return etree.tostring(etree.ElementTree(root), **kwargs)
 
 
 class DOMImplementation(ABC):
-- 
2.43.0


From e5cf78122b328ddd55711db442636307abf729df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 24/98] fix: a document whose element came from another tree
 accepted a second document element

---
 svgpy/dom.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 3564267..81f920c 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -56,6 +56,15 @@ def node_append_data(node, data, tail=True):
         node.text = text
 
 
+def node_ensure_sibling_validity(node, sibling):
+    # lxml checks this only in a document that was not detached
+    if (sibling.node_type == Node.ELEMENT_NODE
+            and sibling != node
+            and node.getparent() is None):
+        raise TypeError('Only processing instructions and comments can be '
+                        'siblings of the root element')
+
+
 def node_get_root(node):
     root = node
     for root in node.iterancestors():
@@ -1231,6 +1240,7 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        node_ensure_sibling_validity(self, node)
         super().addnext(node)
         node.attach_document(self.owner_document)
 
@@ -1246,6 +1256,7 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        node_ensure_sibling_validity(self, node)
         super().addprevious(node)
         node.attach_document(self.owner_document)
 
@@ -1585,6 +1596,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        node_ensure_sibling_validity(self, node)
         super().addnext(node)
         node.attach_document(self.owner_document)
 
@@ -1600,6 +1612,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        node_ensure_sibling_validity(self, node)
         super().addprevious(node)
         node.attach_document(self.owner_document)
 
@@ -2532,6 +2545,7 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        node_ensure_sibling_validity(self, node)
         super().addnext(node)
         node.attach_document(self.owner_document)
 
@@ -2547,6 +2561,7 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        node_ensure_sibling_validity(self, node)
         super().addprevious(node)
         node.attach_document(self.owner_document)
 
-- 
2.43.0


From c81d18332d6406e146baf9eebe1b46264b147ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 25/98] fix: dataset keys did not map back to their attribute
 names

---
 svgpy/dom.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 81f920c..3dadd7d 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -153,33 +153,14 @@ class DOMStringMap(MutableMapping):
         self._owner_element.attributes[name] = value
 
     def _convert_key(self, name):
-        _name = name[len(self._prefix):]
-        length = len(_name)
-        key = ''
-        start = 0
-        while start < length:
-            end = _name.find('-', start)
-            if end == -1:
-                end = length
-            if start == end:
-                key += '-'
-            else:
-                part = _name[start:end]
-                if start != 0:
-                    part = part.capitalize()
-                key += part
-            start = end + 1
-        return key
+        return re.sub('-([a-z])', lambda matched: matched.group(1).upper(),
+                      name[len(self._prefix):])
 
     def _convert_name(self, key):
         if _RE_DOM_STRING_MAP_INVALID_SYNTAX.search(key) is not None:
             raise ValueError('Invalid syntax: ' + repr(key))
-        name = self._prefix
-        for ch in key:
-            if ch.isupper():
-                name += '-'
-            name += ch
-        return name.lower()
+        return self._prefix + re.sub(
+            '[A-Z]', lambda matched: '-' + matched.group().lower(), key)
 
     def _validate_name(self, name):
         _ = self
@@ -191,7 +172,8 @@ class DOMStringMap(MutableMapping):
     def keys(self):
         keys = [self._convert_key(name)
                 for name in self._owner_element.attributes
-                if name.startswith(self._prefix) and name.islower()]
+                if name.startswith(self._prefix)
+                and re.search('[A-Z]', name) is None]
         return KeysView(keys)
 
 
-- 
2.43.0


From fb9beefb6d57521acf02d6971cd53a1968b41b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 26/98] fix: setting a missing dataset entry to an empty string
 raised KeyError

---
 svgpy/dom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 3dadd7d..b1741ae 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -144,7 +144,8 @@ class DOMStringMap(MutableMapping):
 
     def __setitem__(self, key, value):
         if value is None or len(value) == 0:
-            del self[key]
+            if key in self:
+                del self[key]
             return
         name = self._convert_name(key)
         if not self._validate_name(name):
-- 
2.43.0


From 71d939b8a9dab2632925f5e1f09969c46c56a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:26 +0000
Subject: [PATCH 27/98] fix: DOMTokenList counted duplicate tokens and split at
 non-ASCII white space

---
 svgpy/dom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index b1741ae..3a55c7b 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -228,7 +228,8 @@ class DOMTokenList(MutableSequence):
     def _tokens(self):
         """tuple[str, ...]: The token set."""
         value = self._owner_element.get(self._local_name, '')
-        tokens = tuple(value.split())
+        tokens = tuple(dict.fromkeys(
+            re.findall('[^\t\n\x0c\r ]+', value)))
         return tokens
 
     @property
-- 
2.43.0


From 260488b38fc45adc83bd3a1d11c534922f31110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 28/98] fix: get_elements_by_class_name() took class names for
 regular expressions and changed the caller's nsmap

---
 svgpy/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index a568c28..1506b6d 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -99,19 +99,20 @@ def get_elements_by_class_name(element, class_names, nsmap=None,
     Returns:
         list[Element]: A list of elements.
     """
-    names = class_names.split()
+    names = [x for x in re.split('[' + _ASCII_WHITESPACE + ']+', class_names)
+             if len(x) > 0]
     if len(names) == 0:
         return []
     if include_self:
         axis = 'descendant-or-self'
     else:
         axis = 'descendant'
-    patterns = [r're:test(@class, "(^| ){}($| )")'.format(x) for x in names]
+    variables = {'name{}'.format(i): ' {} '.format(x)
+                 for i, x in enumerate(names)}
+    patterns = ['contains(concat(" ", normalize-space(@class), " "), ${})'
+                .format(x) for x in variables]
     expr = '{}::*[{}]'.format(axis, ' and '.join(patterns))
-    if nsmap is None:
-        nsmap = dict()
-    nsmap['re'] = 'http://exslt.org/regular-expressions'
-    return element.xpath(expr, namespaces=nsmap)
+    return element.xpath(expr, namespaces=nsmap, **variables)
 
 
 def get_elements_by_tag_name(element, qualified_name, nsmap=None,
-- 
2.43.0


From 0bc99fdfc49fd72e04cbb3eab8b8d1febd34bc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 29/98] fix: create_element_ns() added the default namespace to
 the caller's nsmap

---
 svgpy/element.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index 66b2ef3..4ab51a2 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1328,8 +1328,7 @@ class SVGParser(object):
             >>> e.tag, e.node_name, e.tag_name, e.local_name
             ('{http://www.w3.org/1999/xhtml}source', 'html:source', 'html:source', 'source')
         """
-        if nsmap is None:
-            nsmap = dict()
+        nsmap = dict() if nsmap is None else dict(nsmap)
         if None not in nsmap:
             nsmap[None] = Element.SVG_NAMESPACE_URI
         qname = QualifiedName(namespace, qualified_name)
-- 
2.43.0


From 671da9f066b511cebfb08e2246a7ce22a69f8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 30/98] fix: type selectors never matched the elements of a
 namespaced document

---
 svgpy/dom.py   |  6 ++++--
 svgpy/style.py | 38 ++++++++++++++++++++++++++++++++------
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 3a55c7b..28a25c9 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -23,7 +23,7 @@ from .core import CSSUtils, Font, SVGLength
 from .css import CSSStyleDeclaration
 from .exception import HierarchyRequestError, InUseAttributeError, \
     InvalidCharacterError, NotFoundError
-from .style import get_css_rules, get_css_style, \
+from .style import SelectorTranslator, get_css_rules, get_css_style, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
@@ -2241,7 +2241,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         uri = nsmap.pop(None, None)
         if uri is not None:
             nsmap['svg'] = uri
-        sel = cssselect.CSSSelector(selectors, namespaces=nsmap)
+        sel = cssselect.CSSSelector(selectors,
+                                    namespaces=nsmap,
+                                    translator=SelectorTranslator())
         return sel(self)
 
     def remove(self, node=None):
diff --git a/svgpy/style.py b/svgpy/style.py
index 4971778..e947140 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -15,6 +15,7 @@
 
 from logging import getLogger
 
+from cssselect.xpath import XPathExpr
 from lxml import cssselect, etree
 
 from .css import CSSParser, CSSRule, CSSStyleSheet
@@ -28,10 +29,7 @@ _SVG_UA_CSS_STYLESHEET = '''
 svg|svg:not(:root), svg|hatch, svg|image, svg|marker, svg|pattern, svg|symbol,
 svg:not(:root), hatch, image, marker, pattern, symbol { overflow: hidden; }
 
-*:not(svg|svg),
-*:not(svg|foreignObject) > svg|svg,
-*:not(svg),
-*:not(foreignObject) > svg {
+* {
   transform-origin: 0 0;
 }
 
@@ -83,6 +81,32 @@ svg|svg, svg {
 logger = getLogger(__name__)
 
 
+class _XPathExpr(XPathExpr):
+
+    def add_name_test(self):
+        # name() depends on the prefix that the document uses
+        if self.element != '*':
+            self.add_condition('self::' + self.element)
+            self.element = '*'
+
+
+class SelectorTranslator(cssselect.LxmlTranslator):
+    """Translates the selectors to XPath. A type selector without a namespace
+    prefix matches the elements in any namespace.
+    """
+
+    xpathexpr_cls = _XPathExpr
+
+    def xpath_element(self, selector):
+        element = '*'
+        if selector.namespace:
+            element = '{}:*'.format(selector.namespace)
+        if selector.element:
+            element += '[local-name() = {}]'.format(
+                self.xpath_literal(selector.element))
+        return self.xpathexpr_cls(element=element)
+
+
 def flatten_css_rules(element, css_rules):
     doc = element.owner_document
     win = doc.default_view if doc is not None else None
@@ -286,8 +310,10 @@ def get_css_style(element, css_rules):
     for css_rule in css_rules:
         if css_rule.type == CSSRule.STYLE_RULE:
             try:
-                selector = cssselect.CSSSelector(css_rule.selector_text,
-                                                 namespaces=namespaces)
+                selector = cssselect.CSSSelector(
+                    css_rule.selector_text,
+                    namespaces=namespaces,
+                    translator=SelectorTranslator())
                 matched = selector(element)
                 if len(matched) > 0 and element in matched:
                     for key, (value, priority) in css_rule.style.items():
-- 
2.43.0


From d4f73b592d160a5a57d4bcb6fd6c8de0d46e99c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 31/98] fix: selectors with combinators never matched in the
 cascade

---
 svgpy/style.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index e947140..69d4d4f 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -303,6 +303,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
 def get_css_style(element, css_rules):
     style = dict()
     style_important = dict()
+    root = element.get_root_node()
     namespaces = element.nsmap.copy()
     uri = namespaces.pop(None, None)
     if uri is not None:
@@ -314,8 +315,8 @@ def get_css_style(element, css_rules):
                     css_rule.selector_text,
                     namespaces=namespaces,
                     translator=SelectorTranslator())
-                matched = selector(element)
-                if len(matched) > 0 and element in matched:
+                # the ancestors and the siblings of the element count as well
+                if element in selector(root):
                     for key, (value, priority) in css_rule.style.items():
                         style[key] = value
                         if priority == 'important':
-- 
2.43.0


From 18b01c9cc41f6c7c7e2475f89cce1c51f98fcf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 32/98] fix: the cascade ignored the specificity of the
 selectors

---
 svgpy/style.py | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index 69d4d4f..b6c823f 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -15,6 +15,7 @@
 
 from logging import getLogger
 
+from cssselect import parse
 from cssselect.xpath import XPathExpr
 from lxml import cssselect, etree
 
@@ -81,6 +82,10 @@ svg|svg, svg {
 logger = getLogger(__name__)
 
 
+class UserAgentStyleSheet(CSSStyleSheet):
+    """Represents the user agent style sheet."""
+
+
 class _XPathExpr(XPathExpr):
 
     def add_name_test(self):
@@ -158,7 +163,7 @@ def get_css_style_sheets(element):
     style_sheets = list()
 
     # user-agent style sheet
-    css_style_sheet = CSSStyleSheet()
+    css_style_sheet = UserAgentStyleSheet()
     css_style_sheet.insert_rule(_SVG_UA_CSS_STYLESHEET)
     style_sheets.append(css_style_sheet)
 
@@ -301,8 +306,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
 
 
 def get_css_style(element, css_rules):
-    style = dict()
-    style_important = dict()
+    declarations = list()
     root = element.get_root_node()
     namespaces = element.nsmap.copy()
     uri = namespaces.pop(None, None)
@@ -311,16 +315,22 @@ def get_css_style(element, css_rules):
     for css_rule in css_rules:
         if css_rule.type == CSSRule.STYLE_RULE:
             try:
-                selector = cssselect.CSSSelector(
-                    css_rule.selector_text,
-                    namespaces=namespaces,
-                    translator=SelectorTranslator())
-                # the ancestors and the siblings of the element count as well
-                if element in selector(root):
-                    for key, (value, priority) in css_rule.style.items():
-                        style[key] = value
-                        if priority == 'important':
-                            style_important[key] = value
+                specificity = None
+                translator = SelectorTranslator()
+                for selector in parse(css_rule.selector_text):
+                    xpath = translator.selector_to_xpath(
+                        selector,
+                        translate_pseudo_elements=True)
+                    # the ancestors and the siblings of the element count
+                    # as well
+                    if element in root.xpath(xpath, namespaces=namespaces):
+                        specificity = max(specificity or (0, 0, 0),
+                                          selector.specificity())
+                if specificity is not None:
+                    author = not isinstance(css_rule.parent_style_sheet,
+                                            UserAgentStyleSheet)
+                    declarations.append(
+                        ((author, specificity), css_rule.style))
             except cssselect.ExpressionError as exp:
                 logger.info('ExpressionError: {}: \'{}\''.format(
                     exp,
@@ -341,4 +351,12 @@ def get_css_style(element, css_rules):
                 if len(prefix) == 0:
                     prefix = 'svg'
                 namespaces[prefix] = css_rule.namespace_uri
+    style = dict()
+    style_important = dict()
+    declarations.sort(key=lambda x: x[0])
+    for _, declaration in declarations:
+        for key, (value, priority) in declaration.items():
+            style[key] = value
+            if priority == 'important':
+                style_important[key] = value
     return style, style_important
-- 
2.43.0


From 683493e468c61153f0d2e0572c09b6029a21dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:33 +0000
Subject: [PATCH 33/98] fix: presentation attributes overrode the author style
 sheets

---
 svgpy/dom.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 28a25c9..9a5afbd 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2004,9 +2004,11 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         css_rules = get_css_rules(self)
         element = self
         while element is not None:
-            css_style, css_style_important = get_css_style(element, css_rules)
-            css_style.update(element.attrib)
+            # the presentation attributes precede the author style sheets
+            css_style = dict(element.attrib)
             _style = css_style.pop('style', None)
+            rule_style, css_style_important = get_css_style(element, css_rules)
+            css_style.update(rule_style)
             if _style is not None:
                 css_style.update(style_to_dict(_style))
             css_style.update(css_style_important)
-- 
2.43.0


From 031168c9e67d1a6a46b71f26347bd8a9599c45f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 34/98] fix: the computed values of the non-inherited
 properties ignored the style sheets and the style attribute

---
 svgpy/dom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 9a5afbd..fff2d7f 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2040,6 +2040,10 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         else:
                             style[key] = value
                         inherited_props.pop(key, None)
+            if element is self:
+                for key in non_inherited_props:
+                    if key in css_style:
+                        style[key] = css_style[key]
             # 'display' property
             display = css_style.get('display')
             if display is not None and display == 'none':
-- 
2.43.0


From ad1dd7cc2db308d715f0c64e21e8d8ddd69f267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 35/98] fix: style attributes lost values with colons, removals
 and important flags

---
 svgpy/css/__init__.py | 45 ++++++------------------------
 svgpy/dom.py          |  9 ++++--
 svgpy/utils.py        | 64 ++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 72 insertions(+), 46 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ecd44f2..8daee9d 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -35,7 +35,7 @@ from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     StylePropertyMap, StylePropertyMapReadOnly, UnitType
 from ..exception import NoModificationAllowedError
 from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
-    load, normalize_url, style_to_dict
+    load, normalize_url, split_priority, style_to_dict
 
 _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
 
@@ -1309,6 +1309,7 @@ class CSSStyleDeclaration(MutableMapping):
         self._property_map = OrderedDict()
         self._owner_node = owner_node
         self._inline_style = inline_style
+        self._style_text = ''
         self._readonly = False
         if rule is not None:
             self._css_text = normalize_text(tinycss2.serialize(rule.content))
@@ -1374,46 +1375,17 @@ class CSSStyleDeclaration(MutableMapping):
             return self._property_map
 
         # 'style' attribute => CSS declarations
-        attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
-        style = '' if attr is None else attr.value
-        property_map = style_to_dict(style)
+        style = self._owner_node.get('style', '')
         declarations = self._property_map
-        for property_name in declarations:
-            if Longhand.is_longhand(property_name):
-                shorthand_names = Longhand.shorthands(property_name)
-                for shorthand_name in shorthand_names:
-                    if shorthand_name in property_map:
-                        shorthand = Shorthand(declarations)
-                        result = shorthand.get_property_value(shorthand_name)
-                        if result == property_map[shorthand_name]:
-                            del property_map[shorthand_name]
-                            break
-            elif (property_name in property_map
-                  and declarations[property_name][0]
-                  == property_map[property_name]):
-                del property_map[property_name]
-
-        for property_name, value in property_map.items():
-            needs_update = False
-            priority = ''
-            if Shorthand.is_shorthand(property_name):
-                shorthand = Shorthand(declarations)
-                result = shorthand.get_property_value(property_name)
-                if result != value:
-                    needs_update = True
-                    priority = shorthand.get_property_priority(property_name)
-            else:
-                if property_name not in declarations:
-                    needs_update = True
-                elif value != declarations[property_name][0]:
-                    needs_update = True
-                    priority = declarations[property_name][1]
-            if needs_update:
+        if style != self._style_text:
+            self._style_text = style
+            declarations.clear()
+            for property_name, value in style_to_dict(style).items():
+                value, priority = split_priority(value)
                 self._set_property_internal(declarations,
                                             property_name,
                                             value,
                                             priority)
-
         return declarations
 
     def _parse_content(self, content):
@@ -1469,6 +1441,7 @@ class CSSStyleDeclaration(MutableMapping):
             return
         style = _StyleAttribute(declarations, self._owner_node)
         style.update(property_name, value)
+        self._style_text = self._owner_node.get('style', '')
 
     def get_property_priority(self, property_name):
         """Returns the important flag of the first exact match of name in the
diff --git a/svgpy/dom.py b/svgpy/dom.py
index fff2d7f..0d2090d 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -27,7 +27,7 @@ from .style import SelectorTranslator, get_css_rules, get_css_style, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
-    is_ascii_whitespace, style_to_dict
+    is_ascii_whitespace, split_priority, style_to_dict
 
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
@@ -2009,8 +2009,11 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             _style = css_style.pop('style', None)
             rule_style, css_style_important = get_css_style(element, css_rules)
             css_style.update(rule_style)
-            if _style is not None:
-                css_style.update(style_to_dict(_style))
+            for key, value in style_to_dict(_style).items():
+                value, priority = split_priority(value)
+                css_style[key] = value
+                if priority == 'important':
+                    css_style_important[key] = value
             css_style.update(css_style_important)
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
diff --git a/svgpy/utils.py b/svgpy/utils.py
index 1506b6d..e7ae66b 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -25,6 +25,19 @@ from urllib.request import urlopen
 from .exception import InvalidCharacterError, NamespaceError
 from .url import Location, URL
 
+_IMPORTANT = ' !important'
+
+_RE_IMPORTANT = re.compile(r'(.*?)\s*(!\s*important)?$',
+                           re.DOTALL | re.IGNORECASE)
+
+_RE_STYLE_TOKEN = re.compile(
+    r'/\*.*?(?:\*/|$)'
+    r'|"(?:\\.|[^"\\])*(?:"|$)'
+    r"|'(?:\\.|[^'\\])*(?:'|$)"
+    r'|url\(\s*[^"\'\s)](?:\\.|[^)\\])*(?:\)|$)'
+    r'|\\.|.',
+    re.DOTALL | re.IGNORECASE)
+
 _ASCII_WHITESPACE = '\t\n\f\r\x20'
 
 _RE_QUALIFIED_NAME = re.compile(
@@ -239,6 +252,20 @@ def remove_quotes(src):
     return src
 
 
+def split_priority(value):
+    """Splits a value of the style attribute's declaration to the value and
+    the important flag.
+
+    Arguments:
+        value (str): The value of the declaration.
+    Returns:
+        tuple[str, str]: The value and the important flag.
+    """
+    if value.endswith(_IMPORTANT):
+        return value[:-len(_IMPORTANT)], 'important'
+    return value, ''
+
+
 def style_to_dict(text):
     """Converts the style attribute's value to a dictionary.
 
@@ -247,13 +274,36 @@ def style_to_dict(text):
     Returns:
         OrderedDict: A dictionary.
     """
-    if text is None or len(text.strip()) == 0:
-        return OrderedDict()
-    items = [x.split(':') for x in iter(text.strip().split(';'))]
-    items = [x for x in items if len(x) == 2]
-    return OrderedDict(
-        (key.strip(), value.strip()) for key, value in iter(items)
-    )
+    style = OrderedDict()
+    if text is None:
+        return style
+    declarations = ['']
+    depth = 0
+    for token in _RE_STYLE_TOKEN.findall(text):
+        if token in ('(', '[', '{'):
+            depth += 1
+        elif token in (')', ']', '}'):
+            depth = max(depth - 1, 0)
+        elif token == ';' and depth == 0:
+            declarations.append('')
+            continue
+        elif token.startswith('/*'):
+            token = ' '
+        declarations[-1] += token
+    for declaration in declarations:
+        key, _, value = declaration.partition(':')
+        key = key.strip()
+        if not key.startswith('--'):
+            key = key.lower()
+        value, important = _RE_IMPORTANT.match(value.strip()).groups()
+        if len(key) == 0 or len(value) == 0:
+            continue
+        elif important is not None:
+            value += _IMPORTANT
+        elif split_priority(style.get(key, ''))[1] == 'important':
+            continue
+        style[key] = value
+    return style
 
 
 class CaseInsensitiveMapping(MutableMapping):
-- 
2.43.0


From aaec9fede3e19f5dc1a07d87240884530052fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 36/98] fix: a later normal declaration of a rule overrode an
 important one

---
 svgpy/css/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 8daee9d..80ecd88 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1397,6 +1397,10 @@ class CSSStyleDeclaration(MutableMapping):
                 property_name = node.name
                 value = tinycss2.serialize(node.value)
                 priority = 'important' if node.important else ''
+                if (not node.important
+                        and self.get_property_priority(property_name)
+                        == 'important'):
+                    continue
                 self.set_property(property_name, value, priority)
 
     def _set_css_declaration(self, declarations, property_name,
-- 
2.43.0


From b68d0469b390397c11c732021c61d3093e4e4ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:00 +0000
Subject: [PATCH 37/98] fix: marker and view elements could not be created;
 data: style sheets were not parsed

---
 svgpy/css/__init__.py | 6 ++++++
 svgpy/element.py      | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 80ecd88..4499500 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1726,6 +1726,12 @@ class CSSParser(object):
         try:
             logger.debug('urlopen \'{}\''.format(url))
             data, headers = load(url)
+            if data is None:
+                data = b''
+            elif isinstance(data, str):
+                # the decoded text of a data: URL
+                data = data.encode('utf-8')
+                encoding = 'utf-8'
             if encoding is None:
                 content_type = get_content_type(headers)
                 if content_type is None:
diff --git a/svgpy/element.py b/svgpy/element.py
index 4ab51a2..a866943 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -471,7 +471,7 @@ class SVGLineElement(SVGGeometryElement):
         return path_data
 
 
-class SVGMarkerElement(SVGGraphicsElement):
+class SVGMarkerElement(SVGElement, SVGFitToViewBox):
     # TODO: implement the SVGMarkerElement.
     """Represents the [SVG2] <marker> element."""
     pass
@@ -1132,7 +1132,7 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         return path_data
 
 
-class SVGViewElement(SVGGraphicsElement, SVGFitToViewBox, SVGZoomAndPan):
+class SVGViewElement(SVGElement, SVGFitToViewBox, SVGZoomAndPan):
     # TODO: implement the SVGViewElement.
     """Represents the [SVG2] <view> element."""
     pass
-- 
2.43.0


From ddfdb101c1150363faedd49a020ef47079654ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 38/98] fix: font with font-family, marker, undeclared prefixes
 and empty links broke the computed style

---
 svgpy/dom.py   | 12 +++++++++---
 svgpy/style.py |  9 +++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 0d2090d..69e876a 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2025,15 +2025,21 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                     elif key == 'font-family':
                         # 'font-family' property
                         style[key] = CSSUtils.parse_font_family(value)
-                        del inherited_props[key]
+                        inherited_props.pop(key, None)
                     elif key == 'font-variant':
                         # 'font-variant' shorthand property
                         style[key] = value
                         _update_font_variant_prop(value, style,
                                                   inherited_props)
                     elif key == 'marker':
-                        # TODO: parse the 'marker' shorthand property.
-                        raise NotImplementedError
+                        # 'marker' shorthand property
+                        style[key] = value
+                        for _key in ['marker-end',
+                                     'marker-mid',
+                                     'marker-start']:
+                            style.setdefault(_key, value)
+                            inherited_props.pop(_key, None)
+                        inherited_props.pop(key, None)
                     else:
                         if key in ['font-variant-alternates',
                                    'font-variant-east-asian',
diff --git a/svgpy/style.py b/svgpy/style.py
index b6c823f..44679bb 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -203,7 +203,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                 element, repr(rel_list), repr(as_)))
             return None  # TODO: support alternative style sheet.
         href = element.href
-        if href is None or href[0] == '#':
+        if not href or href[0] == '#':
             logger.debug('invalid URL: {} href={}'.format(
                 element, repr(href)))
             return None
@@ -281,7 +281,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
         elif element.target != 'xml-stylesheet':
             continue
         href = element.get('href')
-        if (href is None
+        if (not href
                 or href[0] == '#'
                 or element.get('alternate', '') == 'yes'):
             logger.debug('not a style sheet: {}'.format(element))
@@ -335,6 +335,11 @@ def get_css_style(element, css_rules):
                 logger.info('ExpressionError: {}: \'{}\''.format(
                     exp,
                     css_rule.selector_text))
+            except etree.XPathError as exp:
+                # undeclared namespace prefix
+                logger.info('XPathError: {}: \'{}\''.format(
+                    exp,
+                    css_rule.selector_text))
             except cssselect.SelectorSyntaxError as exp:
                 logger.info('SelectorSyntaxError: {}: \'{}\''.format(
                     exp,
-- 
2.43.0


From 18ea991fa7f270b36be9fc2c78cb69bbdaa1a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 39/98] fix: arithmetic on an SVGLength detached it from its
 element

---
 svgpy/core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 6389c2b..ecb0641 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1051,14 +1051,14 @@ class SVGLength(object):
             self._number, self._unit = SVGLength.parse(value)
 
     def __abs__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = abs(x._number)
         return x
 
     def __add__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
         x._number += Decimal(other.value(x._unit))
@@ -1147,7 +1147,7 @@ class SVGLength(object):
         return self._number < o
 
     def __mul__(self, other):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
@@ -1159,16 +1159,16 @@ class SVGLength(object):
         return x
 
     def __neg__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = -x._number
         return x
 
     def __pos__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         return x
 
     def __pow__(self, power, modulo=None):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = pow(x._number, power, modulo)
         return x
 
@@ -1187,14 +1187,14 @@ class SVGLength(object):
     def __sub__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
         x._number -= Decimal(other.value(x._unit))
         return x
 
     def __truediv__(self, other):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
-- 
2.43.0


From 039605fea6e9e8e43cee564455e4e55583697c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 40/98] fix: sizes, positions and percentages of nested
 viewports were resolved against the wrong viewport

---
 svgpy/base.py | 119 ++++++++++++++++++--------------------------------
 svgpy/core.py |   2 +-
 2 files changed, 44 insertions(+), 77 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 4f7bec8..058cea3 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -228,6 +228,30 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
             element = root.getparent()
         return None
 
+    @staticmethod
+    def _get_viewport_length(root, name, default, direction,
+                             parent_vpw, parent_vph):
+        base = (parent_vpw if direction == SVGLength.DIRECTION_HORIZONTAL
+                else parent_vph)
+        value = root.get(name, default)
+        if value == 'auto':
+            value = '100%'
+        elif value == 'inherit' and default == 'auto':
+            return base
+        length = SVGLength(value, context=root, direction=direction)
+        unit = length.unit
+        if unit == SVGLength.TYPE_VW:
+            base = parent_vpw
+        elif unit == SVGLength.TYPE_VH:
+            base = parent_vph
+        elif unit == SVGLength.TYPE_VMAX:
+            base = max(parent_vpw, parent_vph)
+        elif unit == SVGLength.TYPE_VMIN:
+            base = min(parent_vpw, parent_vph)
+        elif unit != SVGLength.TYPE_PERCENTAGE:
+            return length
+        return length.value(unit) / 100 * base
+
     def get_viewport_size(self, recursive=True):
         """Gets the SVG viewport size from nearest ancestor element that
         establishes an SVG viewport.
@@ -257,84 +281,25 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         else:
             initial_viewport_width = win.inner_width
             initial_viewport_height = win.inner_height
-        parent_vpw = vpw = SVGLength(initial_viewport_width,
-                                     direction=SVGLength.DIRECTION_HORIZONTAL)
-        parent_vph = vph = SVGLength(initial_viewport_height,
-                                     direction=SVGLength.DIRECTION_VERTICAL)
+        vpw = SVGLength(initial_viewport_width,
+                        direction=SVGLength.DIRECTION_HORIZONTAL)
+        vph = SVGLength(initial_viewport_height,
+                        direction=SVGLength.DIRECTION_VERTICAL)
+        vpx = SVGLength(0)
+        vpy = SVGLength(0)
         for root in roots:
-            _width = root.get('width', 'auto')
-            if _width == 'auto':
-                _width = '100%'
-            if _width == 'inherit':
-                vpw = parent_vpw
-            else:
-                vpw = SVGLength(_width,
-                                context=root,
-                                direction=SVGLength.DIRECTION_HORIZONTAL)
-                unit = vpw.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VH:
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VMAX:
-                    vpw = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vpw = min(parent_vpw, parent_vph)
             parent_vpw = vpw
-
-            _height = root.get('height', 'auto')
-            if _height == 'auto':
-                _height = '100%'
-            if _height == 'inherit':
-                vph = parent_vph
-            else:
-                vph = SVGLength(_height,
-                                context=root,
-                                direction=SVGLength.DIRECTION_VERTICAL)
-                unit = vph.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VW:
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VMAX:
-                    vph = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vph = min(parent_vpw, parent_vph)
             parent_vph = vph
-        if len(roots) == 0:
-            vpx = SVGLength(0)
-            vpy = SVGLength(0)
-        else:
-            root = roots[-1]
-            vpx = SVGLength(root.get('x', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_HORIZONTAL)
-            unit = vpx.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
-            elif unit == SVGLength.TYPE_VH:
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
-            elif unit == SVGLength.TYPE_VMAX:
-                vpx = max(vpw, vph)
-            elif unit == SVGLength.TYPE_VMIN:
-                vpx = min(vpw, vph)
-
-            vpy = SVGLength(root.get('y', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_VERTICAL)
-            unit = vpy.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
-            elif unit == SVGLength.TYPE_VW:
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
-            elif unit == SVGLength.TYPE_VMAX:
-                vpy = max(vpw, vph)
-            elif unit == SVGLength.TYPE_VMIN:
-                vpy = min(vpw, vph)
+            vpx, vpy, vpw, vph = [
+                SVGElement._get_viewport_length(
+                    root, name, default, direction, parent_vpw, parent_vph)
+                for name, default, direction in [
+                    ('x', '0', SVGLength.DIRECTION_HORIZONTAL),
+                    ('y', '0', SVGLength.DIRECTION_VERTICAL),
+                    ('width', 'auto', SVGLength.DIRECTION_HORIZONTAL),
+                    ('height', 'auto', SVGLength.DIRECTION_VERTICAL),
+                ]
+            ]
 
         # TODO: check a range: max-width, max-height, min-width and min-height.
         return vpx, vpy, vpw, vph
@@ -592,7 +557,9 @@ class SVGFitToViewBox(Element):
         view_box = self.get('viewBox')
         if view_box is None:
             return None
-        vb = Element.RE_DIGIT_SEQUENCE_SPLITTER.split(view_box)
+        vb = Element.RE_DIGIT_SEQUENCE_SPLITTER.split(view_box.strip())
+        if len(vb) != 4:
+            return None
         return (SVGLength(vb[0],
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL),
diff --git a/svgpy/core.py b/svgpy/core.py
index ecb0641..7d986ea 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1392,7 +1392,7 @@ class SVGLength(object):
                 vw = 100
                 vh = 100
             else:
-                view_box = self._context.get_view_box()
+                view_box = self._context.get_view_box(recursive=False)
                 if view_box is not None:
                     _, _, vbw, vbh, _ = view_box
                     vw = vbw.value()
-- 
2.43.0


From eb03955af61ab177bf6d01b924d0ef572035f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 41/98] fix: the CTM left out the transforms between nested
 viewports

---
 svgpy/base.py | 67 +++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 058cea3..0c3d82c 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -333,51 +333,50 @@ class SVGGraphicsElement(SVGElement):
         Returns:
             DOMMatrix: The current transformation matrix (CTM).
         """
-        roots = list()
         ctm = DOMMatrix()
         farthest = self.get_farthest_svg_element()
         if farthest is None:
             return ctm
-        elif hash(farthest) == hash(self):
-            roots.append(farthest)
-        else:
-            element = self
-            while element is not None:
-                root = element.get_nearest_viewport_element()
-                if root is None or root in roots:
-                    break
-                roots.insert(0, root)
-                if viewport_type == SVGElement.NEAREST_VIEWPORT:
-                    if (self.local_name not in ('svg', 'symbol')
-                            or len(roots) >= 2):
-                        break
-                element = root.getparent()
-        if len(roots) == 0:
-            return ctm
+
+        # from the current element up to the viewport
+        elements = list()
+        element = self
+        while element is not None:
+            elements.insert(0, element)
+            if element is farthest:
+                break
+            if (viewport_type == SVGElement.NEAREST_VIEWPORT
+                    and element is not self
+                    and element.local_name in ('svg', 'symbol')):
+                break
+            element = element.getparent()
 
         if viewport_type == SVGElement.FARTHEST_VIEWPORT:
             scale = farthest.current_scale
             tx, ty = farthest.current_translate
             ctm *= DOMMatrix([scale, 0, 0, scale, tx, ty])
-        for root in roots:
-            vtm = root.get_viewport_transformation_matrix(recursive=False)
-            ctm *= vtm
-
-        transform_list = SVGTransformList()
-        element = self
-        while element is not None:
-            if element.istransformable():
+        for element in elements:
+            if (element.istransformable()
+                    and isinstance(element, SVGGraphicsElement)):
                 transform = element.transform
-                if transform is not None:
-                    transform_list[0:0] = transform
+                if transform:
+                    ctm *= transform.matrix
             if element.local_name in ('svg', 'symbol'):
-                break
-            element = element.getparent()
-        if len(transform_list) > 0:
-            matrix = transform_list.matrix
-            ctm *= matrix
+                ctm *= element.get_viewport_transformation_matrix()
         return ctm
 
+    def _get_local_matrix(self):
+        # the matrix that transforms the current element's coordinate system
+        # to its parent's
+        matrix = None
+        transform_list = self.transform  # type: SVGTransformList
+        if transform_list is not None:
+            matrix = transform_list.matrix
+        if self.local_name == 'svg' and self.owner_svg_element is not None:
+            vtm = self.get_viewport_transformation_matrix()
+            matrix = vtm if matrix is None else matrix * vtm
+        return matrix
+
     def get_bbox(self, options=None, _depth=0):
         """Returns the bounding box of the current element.
 
@@ -476,8 +475,8 @@ class SVGGraphicsElement(SVGElement):
             DOMMatrix: The transformation matrix.
         """
         ctm = DOMMatrix()
-        ex, ey, ew, eh = self.get_viewport_size(recursive)
-        view_box = self.get_view_box(recursive)
+        ex, ey, ew, eh = self.get_viewport_size()
+        view_box = self.get_view_box(recursive=False)
         if view_box is None:
             if ex is not None and ey is not None:
                 ctm.translate_self(ex.value(), ey.value())
-- 
2.43.0


From 5a780a23ff0759b79c909e42df9a18410e942776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 42/98] fix: an empty transform attribute broke the bounding
 box

---
 svgpy/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 0c3d82c..4103eed 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -318,7 +318,7 @@ class SVGGraphicsElement(SVGElement):
         # Initial: none
         # Inherited: no
         transform = self.get('transform')
-        if transform is None or transform == 'none':
+        if transform is None or transform.strip() in ('', 'none'):
             return None
         return SVGTransformList.parse(transform)
 
-- 
2.43.0


From 8e9d8ac1674010d755a87ee7d3de202bc8698623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 43/98] fix: path data and boxes of groups and use elements
 dropped or repeated transforms

---
 svgpy/base.py    | 24 +++++++++++-------------
 svgpy/element.py | 29 +++++++++++++++++++++++------
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 4103eed..baf00d3 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -22,7 +22,7 @@ from .formatter import format_coordinate_pair_sequence, \
     to_coordinate_pair_sequence
 from .geometry.matrix import DOMMatrix
 from .geometry.rect import DOMRect
-from .path import PathParser
+from .path import PathParser, SVGPathSegment
 from .transform import SVGTransformList
 from .utils import QualifiedName
 
@@ -399,9 +399,8 @@ class SVGGraphicsElement(SVGElement):
                         continue
                     bbox |= child.get_bbox(options, _depth)
             if _depth > 1:
-                transform_list = self.transform  # type: SVGTransformList
-                if transform_list is not None:
-                    matrix = transform_list.matrix
+                matrix = self._get_local_matrix()
+                if matrix is not None:
                     bbox.transform_self(matrix)
         else:
             settings = SVGPathDataSettings()
@@ -426,7 +425,12 @@ class SVGGraphicsElement(SVGElement):
         path_data = list()
         for child in iter(self):
             if isinstance(child, SVGGraphicsElement):
-                path_data += child.get_path_data(settings)
+                child_path_data = child.get_transformed_path_data(settings)
+                if len(child_path_data) > 0 and child_path_data[0].type == 'm':
+                    # the first moveto of each path is absolute
+                    child_path_data[0] = SVGPathSegment(
+                        'M', *child_path_data[0].values)
+                path_data += child_path_data
         return path_data
 
     @abstractmethod
@@ -457,14 +461,8 @@ class SVGGraphicsElement(SVGElement):
         path_data = self.get_path_data(settings)
         if len(path_data) == 0:
             return path_data
-        if self.local_name == 'use':
-            transform_list = self.instance_root.transform
-            if transform_list is not None:
-                matrix = transform_list.matrix
-                path_data = PathParser.transform(path_data, matrix)
-        transform_list = self.transform  # type: SVGTransformList
-        if transform_list is not None:
-            matrix = transform_list.matrix
+        matrix = self._get_local_matrix()
+        if matrix is not None:
             path_data = PathParser.transform(path_data, matrix)
         return path_data
 
diff --git a/svgpy/element.py b/svgpy/element.py
index a866943..543869a 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1048,6 +1048,22 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         element = root.get_element_by_id(href[1:])
         return element
 
+    def _is_circular(self):
+        # a direct or indirect reference to the element itself
+        done = list()
+        targets = [self.instance_root]
+        while len(targets) > 0:
+            target = targets.pop()
+            if target is None or target in done:
+                continue
+            done.append(target)
+            for element in target.iter():
+                if element is self:
+                    return True
+                elif isinstance(element, SVGUseElement):
+                    targets.append(element.instance_root)
+        return False
+
     def get_computed_geometry(self):
         geometry = dict()
 
@@ -1096,14 +1112,15 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
             list[SVGPathSegment]: A list of path segments.
         """
         root = self.instance_root
-        if root is None or not isinstance(root, SVGGraphicsElement):
+        if (root is None
+                or not isinstance(root, SVGGraphicsElement)
+                or self._is_circular()):
             return []
-        path_data = root.get_path_data(settings)
-
-        transform_list = self.transform
-        if transform_list is None:
-            transform_list = SVGTransformList()
+        path_data = root.get_transformed_path_data(settings)
+        if len(path_data) == 0:
+            return path_data
 
+        transform_list = SVGTransformList()
         geometry = self.get_computed_geometry()
         x = geometry['x']
         y = geometry['y']
-- 
2.43.0


From 85eca79235230f0fc21e56bae83542a93dabf4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 44/98] fix: an auto radius of an ellipse took the percentage
 instead of the length of the other

---
 svgpy/element.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index 543869a..7c70b2b 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -289,21 +289,19 @@ class SVGEllipseElement(SVGGeometryElement):
         # Percentages: refer to the size of the current SVG viewport
         _ry = self.get('ry', 'auto')
 
-        if _rx != 'auto' and _ry == 'auto':
-            _ry = _rx
-        elif _rx == 'auto' and _ry != 'auto':
-            _rx = _ry
-
-        if _rx == 'auto' and _ry == 'auto':
-            rx = 0
-            ry = 0
-        else:
+        rx = ry = 0
+        if _rx != 'auto':
             rx = SVGLength(_rx,
                            context=self,
                            direction=SVGLength.DIRECTION_HORIZONTAL).value()
+        if _ry != 'auto':
             ry = SVGLength(_ry,
                            context=self,
                            direction=SVGLength.DIRECTION_VERTICAL).value()
+        if _rx == 'auto':
+            rx = ry
+        elif _ry == 'auto':
+            ry = rx
         geometry['rx'] = rx
         geometry['ry'] = ry
 
-- 
2.43.0


From 5cce7d98ae5a629c65e47bf6d0217139095330a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 45/98] fix: inherited relative font sizes, weights and line
 heights were applied again at every level

---
 svgpy/core.py | 119 ++++++++++++++++++++++----------------------------
 svgpy/dom.py  |  23 ++++++----
 2 files changed, 65 insertions(+), 77 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 7d986ea..bf068ba 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -85,16 +85,14 @@ class CSSUtils(object):
     _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+$', re.MULTILINE)
 
     @staticmethod
-    def compute_font_size(element, inherited_size=None, inherited_style=None):
-        if inherited_style is None:
-            inherited_style = element.get_inherited_style()
-
+    def compute_font_size(element, inherited=None):
         # 'font-size' property
         # Value: <absolute-size> | <relative-size> | <length> | <percentage>
         # Initial: medium
         # Inherited: yes
         # Percentages: refer to parent element's font size
-        font_size = inherited_style['font-size']
+        font_size, element = CSSUtils.get_inherited_value(
+            element, 'font-size', inherited)
         if font_size in CSSUtils._ABSOLUTE_FONT_SIZE_MAP:
             # <absolute-size>
             # Value: xx-small | x-small | small | medium | large | x-large
@@ -111,30 +109,22 @@ class CSSUtils(object):
         elif font_size in ['larger', 'smaller']:
             # <relative-size>
             # Value: larger | smaller
-            if inherited_size is None:
-                inherited_size = Font.default_font_size
-            parent_sequence = list()
             parent = element.getparent()
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-size')
-                if value is None:
-                    continue
-                elif value in ['larger', 'smaller']:
-                    scale_factor = 1.2 if font_size == 'larger' else 1 / 1.2
-                    inherited_size *= scale_factor
-                else:
-                    inherited_size = CSSUtils.compute_font_size(
-                        parent,
-                        inherited_size,
-                        {'font-size': value})
-            px = inherited_size
+            if parent is None:
+                px = Font.default_font_size
+            else:
+                px = CSSUtils.compute_font_size(parent)
+            px *= 1.2 if font_size == 'larger' else 1 / 1.2
         else:
             # <length> or <percentage>
             # See https://drafts.csswg.org/css-values-3/#lengths
             fs = SVGLength(font_size, context=element)
+            parent = element.getparent()
+            if fs.unit == SVGLength.TYPE_REMS and parent is None:
+                fs = SVGLength(font_size)
+            elif fs.unit in [SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
+                             SVGLength.TYPE_CHS, SVGLength.TYPE_ICS]:
+                fs = SVGLength(font_size, context=parent)
             px = fs.value()
 
         if px < CSSUtils._MINIMUM_FONT_SIZE:
@@ -154,43 +144,27 @@ class CSSUtils(object):
         return font_size_adjust
 
     @staticmethod
-    def compute_font_weight(element,
-                            inherited_weight=None, inherited_style=None):
-        if inherited_style is None:
-            inherited_style = element.get_inherited_style()
-
+    def compute_font_weight(element, inherited=None):
         # 'font-weight' property
         # Value: normal | bold | bolder | lighter
         #  | 100 | 200 | 300 | 400 | 500 | 600 | 700 | 800 | 900
         # Initial: normal
         # Inherited: yes
         # Percentages: N/A
-        font_weight = inherited_style['font-weight']
+        font_weight, element = CSSUtils.get_inherited_value(
+            element, 'font-weight', inherited)
         if font_weight in ['bolder', 'lighter']:
             # <relative-weight>
             # Value: bolder | lighter
-            if inherited_weight is None:
-                inherited_weight = Font.default_font_weight
-            parent_sequence = list()
             parent = element.getparent()
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-weight')
-                if value is None:
-                    continue
-                elif value in ['bolder', 'lighter']:
-                    xp = CSSUtils._INHERITED_WEIGHT_LIST
-                    fp = CSSUtils._BOLDER_WEIGHT_LIST if value == 'bolder' \
-                        else CSSUtils._LIGHTER_WEIGHT_LIST
-                    inherited_weight = np.interp(inherited_weight, xp, fp)
-                else:
-                    inherited_weight = CSSUtils.compute_font_weight(
-                        parent,
-                        inherited_weight,
-                        {'font-weight': value})
-            weight = inherited_weight
+            if parent is None:
+                inherited_weight = Font.default_font_weight
+            else:
+                inherited_weight = CSSUtils.compute_font_weight(parent)
+            xp = CSSUtils._INHERITED_WEIGHT_LIST
+            fp = CSSUtils._BOLDER_WEIGHT_LIST if font_weight == 'bolder' \
+                else CSSUtils._LIGHTER_WEIGHT_LIST
+            weight = np.interp(inherited_weight, xp, fp)
         else:
             # <absolute-weight>
             weight = CSSUtils._FONT_WEIGHT_MAP.get(font_weight, font_weight)
@@ -198,29 +172,38 @@ class CSSUtils(object):
         return int(weight)
 
     @staticmethod
-    def compute_line_height(element, computed_style=None):
-        if computed_style is None:
-            computed_style = element.get_computed_style()
-
+    def compute_line_height(element, inherited=None):
         # 'line-height' property
         # Value: normal | <number> | <length> | <percentage> | inherit
         # Initial: normal
         # Inherited: yes
         # Percentages: refer to the font size of the element itself
-        value = computed_style['line-height']
-        font_size = computed_style['font-size']
+        value, source = CSSUtils.get_inherited_value(
+            element, 'line-height', inherited)
         if value == 'normal':
-            line_height = 1.2 * font_size
-        else:
-            h = SVGLength(value, context=element)
-            if h.unit == SVGLength.TYPE_PERCENTAGE:
-                # <percentage>
-                line_height = (h.value(SVGLength.TYPE_PERCENTAGE) / 100
-                               * font_size)
-            else:
-                # <length> or <number>
-                line_height = h.value()
-        return line_height
+            return 1.2 * CSSUtils.compute_font_size(element, inherited)
+        h = SVGLength(value, context=source)
+        if h.unit is None:
+            # <number>
+            return h.value() * CSSUtils.compute_font_size(element, inherited)
+        elif h.unit == SVGLength.TYPE_EMS:
+            return h.value(h.unit) * CSSUtils.compute_font_size(source)
+        elif h.unit == SVGLength.TYPE_PERCENTAGE:
+            # <percentage>
+            return (h.value(h.unit) / 100
+                    * CSSUtils.compute_font_size(source))
+        # <length>
+        return h.value()
+
+    @staticmethod
+    def get_inherited_value(element, key, inherited=None):
+        """Returns the specified value of the inherited property, and the
+        element that has it.
+        """
+        if inherited is None:
+            inherited = element._get_inherited_style()
+        style, sources = inherited
+        return style[key], sources.get(key, element)
 
     @staticmethod
     def get_value(element, key, default=None):
diff --git a/svgpy/dom.py b/svgpy/dom.py
index 69e876a..3947249 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1804,16 +1804,15 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
     def get_computed_style(self):
         """Gets the presentation attributes from ancestor elements."""
         # TODO: implement Window.get_computed_style()
-        style = self.get_inherited_style()
+        inherited = self._get_inherited_style()
+        style = dict(inherited[0])
 
         # 'font-feature-settings' property
         style['font-feature-settings'] = CSSUtils.parse_font_feature_settings(
             style['font-feature-settings'])
 
         # 'font-size' property
-        style['font-size'] = CSSUtils.compute_font_size(
-            self,
-            inherited_style=style)
+        style['font-size'] = CSSUtils.compute_font_size(self, inherited)
 
         # 'font-size-adjust' property
         style['font-size-adjust'] = CSSUtils.compute_font_size_adjust(style)
@@ -1827,12 +1826,10 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         style['font-synthesis'] = items
 
         # 'font-weight' property
-        style['font-weight'] = CSSUtils.compute_font_weight(
-            self,
-            inherited_style=style)
+        style['font-weight'] = CSSUtils.compute_font_weight(self, inherited)
 
         # 'line-height' property
-        style['line-height'] = CSSUtils.compute_line_height(self, style)
+        style['line-height'] = CSSUtils.compute_line_height(self, inherited)
 
         # 'inline-size' property
         # Value: <length> | <percentage> | <number>
@@ -1870,6 +1867,11 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         return style
 
     def get_inherited_style(self):
+        return self._get_inherited_style()[0]
+
+    def _get_inherited_style(self):
+        # returns the specified values, and the elements that have the values
+        # of the inherited properties
         def _update_font_prop(_value, _style, _inherited_style):
             _other = CSSUtils.parse_font(_value)
             for _key in _other:
@@ -1906,6 +1908,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
         # See https://svgwg.org/svg2-draft/propidx.html
         style = dict()
+        sources = dict()
         non_inherited_props = \
             {'alignment-baseline': 'baseline',
              'baseline-shift': '0',
@@ -2049,6 +2052,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         else:
                             style[key] = value
                         inherited_props.pop(key, None)
+            for key in iter(style):
+                sources.setdefault(key, element)
             if element is self:
                 for key in non_inherited_props:
                     if key in css_style:
@@ -2068,7 +2073,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             style['font-family'] = CSSUtils.parse_font_family(
                 Font.default_font_family)
 
-        return style
+        return style, sources
 
     def get_elements_by_class_name(self, class_names, nsmap=None):
         """Finds all matching sub-elements, by class names.
-- 
2.43.0


From 0c0b56212d2fb033274a5d7a9cad3286b73dbfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:52 +0000
Subject: [PATCH 46/98] fix: em lengths of an element used the font size of its
 parent

---
 svgpy/core.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index bf068ba..0a00fe4 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -120,10 +120,11 @@ class CSSUtils(object):
             # See https://drafts.csswg.org/css-values-3/#lengths
             fs = SVGLength(font_size, context=element)
             parent = element.getparent()
-            if fs.unit == SVGLength.TYPE_REMS and parent is None:
-                fs = SVGLength(font_size)
-            elif fs.unit in [SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
-                             SVGLength.TYPE_CHS, SVGLength.TYPE_ICS]:
+            if fs.unit in [SVGLength.TYPE_EMS, SVGLength.TYPE_PERCENTAGE,
+                           SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
+                           SVGLength.TYPE_CHS, SVGLength.TYPE_ICS,
+                           SVGLength.TYPE_REMS]:
+                # relative to the font of the parent element
                 fs = SVGLength(font_size, context=parent)
             px = fs.value()
 
@@ -186,8 +187,6 @@ class CSSUtils(object):
         if h.unit is None:
             # <number>
             return h.value() * CSSUtils.compute_font_size(element, inherited)
-        elif h.unit == SVGLength.TYPE_EMS:
-            return h.value(h.unit) * CSSUtils.compute_font_size(source)
         elif h.unit == SVGLength.TYPE_PERCENTAGE:
             # <percentage>
             return (h.value(h.unit) / 100
@@ -1228,8 +1227,8 @@ class SVGLength(object):
 
     def isrelative(self):
         return self._unit in [
-            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CHS,
-            SVGLength.TYPE_ICS, SVGLength.TYPE_REMS,
+            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
+            SVGLength.TYPE_CHS, SVGLength.TYPE_ICS, SVGLength.TYPE_REMS,
             SVGLength.TYPE_PERCENTAGE,
             SVGLength.TYPE_VW, SVGLength.TYPE_VH,
             SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX,
@@ -1357,12 +1356,8 @@ class SVGLength(object):
             if self._context is None:
                 element_font_size = Decimal(Font.default_font_size)
             else:
-                context = self._context.getparent()
-                if context is None:
-                    element_font_size = Decimal(Font.default_font_size)
-                else:
-                    element_font_size = Decimal(
-                        CSSUtils.compute_font_size(context))
+                element_font_size = Decimal(
+                    CSSUtils.compute_font_size(self._context))
 
         if (self._unit in [SVGLength.TYPE_VW, SVGLength.TYPE_VH,
                            SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX,
-- 
2.43.0


From d7251d48a4ffd4f1aa3a87f5d97691262adba8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 47/98] fix: the viewBox scale was wrong when the viewport was
 given in different units

---
 svgpy/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/base.py b/svgpy/base.py
index baf00d3..909caf0 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -482,6 +482,7 @@ class SVGGraphicsElement(SVGElement):
         if ew is None or eh is None:
             return ctm
         vbx, vby, vbw, vbh, par = view_box
+        ex, ey, ew, eh = [SVGLength(x.value()) for x in (ex, ey, ew, eh)]
         align = par.align
         if align == SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_UNKNOWN:
             align = SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMIDYMID
-- 
2.43.0


From 256785ba9db7b45c68d2e81f8f546786c28216fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 48/98] fix: preserveAspectRatio values with xMinYMid were
 taken for xMidYMid

---
 svgpy/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/base.py b/svgpy/base.py
index 909caf0..d5e1075 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -668,6 +668,7 @@ class SVGPreserveAspectRatio(object):
     }
 
     _ALIGN_TYPE_MAP = dict((v, k) for k, v in _TYPE_ALIGN_MAP.items())
+    _ALIGN_TYPE_MAP['xMinYMid'] = SVG_PRESERVEASPECTRATIO_XMINYMID
 
     _TYPE_MEETORSLICE_MAP = {
         SVG_MEETORSLICE_MEET: MEETORSLICE_MEET,
-- 
2.43.0


From 3ee23dc64f39575439eb9a6b05d18167b6e359f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 49/98] fix: transform functions without a separator between
 them were dropped

---
 svgpy/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/transform.py b/svgpy/transform.py
index a320263..e0782bb 100644
--- a/svgpy/transform.py
+++ b/svgpy/transform.py
@@ -23,7 +23,7 @@ from .geometry.matrix import DOMMatrix, DOMMatrixReadOnly
 
 _RE_TRANSFORM_LIST = re.compile(
     r"(?P<transform>(?P<name>matrix|translate|scale|rotate|skewX|skewY)"
-    r"\s*\((?P<values>[^)]+)\))($|\s+|\s*,\s*)")
+    r"\s*\((?P<values>[^)]+)\))(\s*,\s*|\s*)")
 
 _RE_NUMBER_SEQUENCE = re.compile(
     r"(?P<number>[+-]?"
-- 
2.43.0


From 9d05206a93ea2d77e64e02d285ab0a4fed1acda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:43 +0000
Subject: [PATCH 50/98] fix: a rectangle without width or height ignored
 transformations

---
 svgpy/geometry/rect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 41e9b9a..5dcaabd 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -524,7 +524,10 @@ class DOMRect(DOMRectReadOnly):
         Returns:
             DOMRect: Returns itself.
         """
-        if not self.isvalid():
+        if (self._x is None
+                or self._y is None
+                or self._width < 0
+                or self._height < 0):
             return self
         # clockwise
         x1, y1, x3, y3 = self.get_coords()
-- 
2.43.0


From 1266bf9ef27095e259aa691cede3da32b6daf4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 51/98] fix: font lost to overridden longhands, and its parts
 were mixed up (families of several words, line heights)

---
 svgpy/core.py           | 68 ++++++++++++++++++-----------------------
 svgpy/css/shorthands.py | 30 ++++++++++++++----
 svgpy/dom.py            | 15 +++++++--
 3 files changed, 66 insertions(+), 47 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 0a00fe4..f9cfc8f 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -17,7 +17,6 @@ import copy
 import html
 import math
 import re
-import shlex
 import unicodedata
 from decimal import Decimal, InvalidOperation
 
@@ -79,6 +78,10 @@ class CSSUtils(object):
     _BOLDER_WEIGHT_LIST = [400, 400, 400, 700, 700, 900, 900, 900, 900]
     _LIGHTER_WEIGHT_LIST = [100, 100, 100, 100, 100, 400, 400, 700, 700]
 
+    _RE_FONT_FAMILY_NAME = re.compile(r'(?:"[^"]*"|\'[^\']*\'|[^,])+')
+    _RE_FONT_SIZE_FAMILY = re.compile(
+        r'(?P<size>[^\s/]+)(?:\s*/\s*(?P<height>\S+))?\s+(?P<family>.+)',
+        re.DOTALL)
     _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}', re.MULTILINE)
     _RE_SEGMENT_BREAKS = re.compile(r'(\r\n|\r|\n)+', re.MULTILINE)
     _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'^(\x20|\t)+', re.MULTILINE)
@@ -323,7 +326,7 @@ class CSSUtils(object):
         #  || <font-weight> || <font-stretch> ]? <font-size>
         #  [ / <line-height> ]? <font-family> ]
         #  | caption | icon | menu | message-box | small-caption | status-bar
-        items = shlex.split(value)
+        items = value.split()
         if len(items) == 0:
             return {}
         for item in iter(items):
@@ -345,37 +348,14 @@ class CSSUtils(object):
             'line-height': Font.CSS_DEFAULT_LINE_HEIGHT,
         })
 
-        # 'font-family' property
-        font_family = list([items.pop()])
-        delimiter = False
-        while len(items) > 0:
-            item = items[-1]
-            if item == ',':
-                # 'a_,_b' -> ['a', ',', 'b']
-                delimiter = True
-            elif delimiter or item.endswith(','):
-                font_family.insert(0, item)
-                delimiter = False
-            else:
-                break
-            items.pop()
-        style['font-family'] = CSSUtils.parse_font_family(font_family)
-
-        # 'font-size' and 'line-height' properties
-        try:
-            item = items.pop()
-        except IndexError:
-            return {}
-        if item.find('/') != -1:
-            # 'font-size' [/ 'line-height']
-            parts = item.split('/')
-            style['font-size'] = parts[0]
-            style['line-height'] = parts[1]
-        else:
-            style['font-size'] = item
-
-        while len(items) > 0:
-            item = items.pop(0)
+        rest = value.strip()
+        while True:
+            # 'font-style', 'font-variant-css21', 'font-weight' and
+            # 'font-stretch' properties
+            parts = rest.split(maxsplit=1)
+            if len(parts) != 2:
+                return {}
+            item = parts[0]
             if item == 'normal':
                 pass
             elif item in ['italic', 'oblique']:
@@ -395,6 +375,17 @@ class CSSUtils(object):
                 style['font-stretch'] = item
             else:
                 break
+            rest = parts[1]
+
+        # 'font-size', 'line-height' and 'font-family' properties
+        matched = CSSUtils._RE_FONT_SIZE_FAMILY.match(rest)
+        if matched is None:
+            return {}
+        style['font-size'] = matched.group('size')
+        if matched.group('height') is not None:
+            style['line-height'] = matched.group('height')
+        style['font-family'] = CSSUtils.parse_font_family(
+            matched.group('family'))
 
         return style
 
@@ -416,17 +407,18 @@ class CSSUtils(object):
         if isinstance(value, list):
             items = value
         elif isinstance(value, str):
-            if '"' in value or '\'' in value:
-                items = shlex.split(value)
-            else:
-                items = [value]
+            items = [value]
         else:
             raise TypeError('Expected str or list, got {}'.format(
                 type(value)))
         font_family = list()
         for item in iter(items):
-            for name in iter(item.split(',')):
+            for name in CSSUtils._RE_FONT_FAMILY_NAME.findall(item):
                 name = name.strip()
+                if name[:1] in ['"', "'"] and name[0] == name[-1]:
+                    name = name[1:-1]
+                else:
+                    name = ' '.join(name.split())
                 if len(name) > 0:
                     font_family.append(name)
         return font_family
diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 3886b35..c8d8eca 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -206,15 +206,18 @@ class ShorthandProperty(ABC):
 
     @staticmethod
     def _parse_css_declaration(property_name, component_list,
-                               set_initial_value=True):
+                               set_initial_value=True, leading_names=(),
+                               leading_list=None):
         components_map = OrderedDict()
         css_wide_keywords = list()
         longhand_names = shorthand_property_map[property_name]
         for longhand_name in longhand_names:
-            ShorthandProperty._parse_component_list(longhand_name,
-                                                    component_list,
-                                                    components_map,
-                                                    css_wide_keywords)
+            ShorthandProperty._parse_component_list(
+                longhand_name,
+                (leading_list if longhand_name in leading_names
+                 else component_list),
+                components_map,
+                css_wide_keywords)
 
         if len(css_wide_keywords) > 0:
             components_map.clear()
@@ -255,9 +258,24 @@ class ShorthandProperty(ABC):
 class FontShorthand(ShorthandProperty):
 
     def set_css_declaration(self, component_list, priority):
+        # [ <font-style> || <font-variant-css2> || <font-weight>
+        #  || <font-stretch-css3> ]? precedes <font-size>
+        leading_list = component_list
+        desc = css_property_descriptor_map['font-size']
+        for index, component in enumerate(component_list):
+            if (component.type in ('ident', 'dimension', 'percentage')
+                    and desc.support(component)[0]):
+                leading_list = [
+                    x for x in component_list[:index]
+                    if x.type != 'ident' or x.lower_value != 'normal']
+                component_list = component_list[index:]
+                break
+
         components_map, _ = ShorthandProperty._parse_css_declaration(
             'font',
-            component_list)
+            component_list,
+            leading_names=shorthand_property_map['font'][:4],
+            leading_list=leading_list)
 
         font_variant_components = components_map.pop('font-variant-css2')
         shorthand = FontVariantShorthand(self._declarations)
diff --git a/svgpy/dom.py b/svgpy/dom.py
index 3947249..c7bee79 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1906,6 +1906,14 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             _inherited_style.pop('font-variant-position', None)
             _inherited_style.pop('font-variant', None)
 
+        def _set_prop(_key, _value, _style):
+            if _key == 'font':
+                # resets the longhand properties declared before
+                for _name in CSSUtils.parse_font(_value):
+                    _style.pop(_name, None)
+            _style.pop(_key, None)
+            _style[_key] = _value
+
         # See https://svgwg.org/svg2-draft/propidx.html
         style = dict()
         sources = dict()
@@ -2014,10 +2022,11 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             css_style.update(rule_style)
             for key, value in style_to_dict(_style).items():
                 value, priority = split_priority(value)
-                css_style[key] = value
+                _set_prop(key, value, css_style)
                 if priority == 'important':
-                    css_style_important[key] = value
-            css_style.update(css_style_important)
+                    _set_prop(key, value, css_style_important)
+            for key, value in css_style_important.items():
+                _set_prop(key, value, css_style)
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
                 if value is not None and value not in ['inherit']:
-- 
2.43.0


From 9c6a07937f9849d32b344990ea0a0d5d0b7b8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:46 +0000
Subject: [PATCH 52/98] fix: relative inline-size values ignored the element's
 viewport and font

---
 svgpy/dom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c7bee79..b0eddb2 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1841,7 +1841,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         mode = SVGLength.DIRECTION_HORIZONTAL if writing_mode in [
             'horizontal-tb', 'lr', 'lr-tb', 'rl', 'rl-tb'
         ] else SVGLength.DIRECTION_VERTICAL
-        style['inline-size'] = SVGLength(inline_size).value(direction=mode)
+        style['inline-size'] = SVGLength(
+            inline_size,
+            context=self).value(direction=mode)
 
         # 'stroke-width' property
         # Value: <percentage> | <length>
-- 
2.43.0


From 03e75afd6af4cee53ae8abf8b9994ce4132e34b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 53/98] fix: relative references lost the base URL's path and
 query, and changed the base object itself

---
 svgpy/url.py | 63 ++++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index e4443bc..d5605a4 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -17,6 +17,7 @@ import os
 import re
 import sys
 from collections.abc import MutableMapping
+from copy import deepcopy
 from urllib.parse import quote, quote_plus, unquote, urlencode, urlsplit
 
 _SPECIAL_SCHEMES_PORT_NUMBERS = {
@@ -240,37 +241,9 @@ class URL(object):
         if (parsed_base is not None
                 and parsed_base.protocol in ['about:', 'blob:', 'data:']):
             parsed_base = None
-        done = False
-        try:
-            self._parse_url(url)
-            done = True
-        except ValueError:
-            if parsed_base is None:
-                raise
-        if not done:
-            if os.path.isabs(url):
-                parsed_base.pathname = url
-                parsed_base.search = ''
-                parsed_base.hash = ''
-            else:
-                if parsed_base.protocol != 'file:':
-                    pathname = os.path.join(
-                        os.path.dirname(parsed_base.pathname),
-                        url)
-                else:  # 'file:'
-                    parent_path = parsed_base.pathname
-                    if sys.platform.startswith('win'):
-                        parent_path = parent_path.lstrip('/')
-                    if not os.path.isdir(parent_path):
-                        parent_path = os.path.dirname(parent_path)
-                    pathname = os.path.join(parent_path, url)
-                pathname = pathname.replace('\\', '/')
-                pr = urlsplit(pathname)
-                parsed_base.pathname = pr.path
-                parsed_base.search = pr.query
-                parsed_base.hash = pr.fragment
-            url = parsed_base.href
-            self._parse_url(url)
+        if parsed_base is not None:
+            url = self._resolve_url(url, parsed_base)
+        self._parse_url(url)
 
     def __repr__(self):
         return repr({'href': self.tostring(),
@@ -552,6 +525,34 @@ class URL(object):
         self.search = pr.query
         self.hash = pr.fragment
 
+    @staticmethod
+    def _resolve_url(url, base):
+        pr = urlsplit(url)
+        if len(pr.scheme) > 0:
+            return url
+        elif len(pr.netloc) > 0:
+            return base.protocol + url
+        base = deepcopy(base)
+        if len(pr.path) > 0:
+            if os.path.isabs(pr.path):
+                pathname = pr.path
+            elif base.protocol != 'file:':
+                pathname = os.path.join(os.path.dirname(base.pathname),
+                                        pr.path)
+            else:  # 'file:'
+                parent_path = base.pathname
+                if sys.platform.startswith('win'):
+                    parent_path = parent_path.lstrip('/')
+                if not os.path.isdir(parent_path):
+                    parent_path = os.path.dirname(parent_path)
+                pathname = os.path.join(parent_path, pr.path)
+            base.pathname = pathname.replace('\\', '/')
+            base.search = pr.query
+        elif url.startswith('?'):
+            base.search = pr.query
+        base.hash = pr.fragment
+        return base.href
+
     def tostring(self, exclude_fragment=False):
         """Serializes an URL object.
 
-- 
2.43.0


From 7f5f5b6ad882b66c9b5006dfc41ad2633fcf45dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 54/98] fix: URL.search lost text after a second '=',
 percent-encoding and '+' signs

---
 svgpy/url.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index d5605a4..ed92bc6 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -18,7 +18,9 @@ import re
 import sys
 from collections.abc import MutableMapping
 from copy import deepcopy
-from urllib.parse import quote, quote_plus, unquote, urlencode, urlsplit
+from urllib.parse import (
+    quote, quote_plus, unquote, unquote_plus, urlencode, urlsplit,
+)
 
 _SPECIAL_SCHEMES_PORT_NUMBERS = {
     'ftp:': '21',
@@ -30,6 +32,8 @@ _SPECIAL_SCHEMES_PORT_NUMBERS = {
     'wss:': '443',
 }
 
+_RE_PERCENT_ENCODED = re.compile(r'%([0-9A-Fa-f]{2})')
+
 _RE_NUMERIC_CHARACTER_REFERENCE = re.compile(
     r'(?P<prefix>&#)([0-9]{4}|x[0-9a-f]{4})(?P<suffix>;)',
     re.IGNORECASE)
@@ -418,34 +422,32 @@ class URL(object):
         queries = list()
         # unsafe:
         # U+0020 (SP), U+0023 (#), U+0026 (&), and U+0027 (')
-        safe = '!$%()*+,-./:;=?@[\\]^_`{|}~'
+        safe = '!$%()*,-./:;?@[\\]^_`{|}~'
         # FIXME: implement URLSearchParams.sort().
         for key in sorted(self._search_params):
             value = self._search_params[key]
+            key = _RE_PERCENT_ENCODED.sub(r'%25\1', key)
             key = quote_numeric_character_references(key,
                                                      quote_via=quote_plus,
                                                      safe=safe)
+            value = _RE_PERCENT_ENCODED.sub(r'%25\1', value)
             value = quote_numeric_character_references(value,
                                                        quote_via=quote_plus,
-                                                       safe=safe)
+                                                       safe=safe + '=')
             query = '{}={}'.format(key, value)
             queries.append(query)
         return '?' + '&'.join(queries)
 
     @search.setter
     def search(self, query):
-        query = query.lstrip('?')
+        if query.startswith('?'):
+            query = query[1:]
         self._search_params.clear()
-        if len(query) == 0:
-            return
-        pairs = query.split('&')
-        for pair in pairs:
-            kv = pair.split('=')
-            if len(kv) < 2:
-                kv.append('')
-            key = kv[0].replace('+', ' ')
-            value = kv[1].replace('+', ' ')
-            self._search_params[key] = value
+        for pair in query.split('&'):
+            if len(pair) == 0:
+                continue
+            key, _, value = pair.partition('=')
+            self._search_params[unquote_plus(key)] = unquote_plus(value)
 
     @property
     def search_params(self):
@@ -522,7 +524,7 @@ class URL(object):
         self.username = pr.username if pr.username is not None else ''
         self.password = pr.password if pr.password is not None else ''
         self.pathname = pr.path
-        self.search = pr.query
+        self.search = '?' + pr.query
         self.hash = pr.fragment
 
     @staticmethod
@@ -547,9 +549,9 @@ class URL(object):
                     parent_path = os.path.dirname(parent_path)
                 pathname = os.path.join(parent_path, pr.path)
             base.pathname = pathname.replace('\\', '/')
-            base.search = pr.query
+            base.search = '?' + pr.query
         elif url.startswith('?'):
-            base.search = pr.query
+            base.search = '?' + pr.query
         base.hash = pr.fragment
         return base.href
 
-- 
2.43.0


From ac635df2b513095bbde9a62685b78dc9e05e0fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:12 +0000
Subject: [PATCH 55/98] fix: URL paths and fragments decoded reserved escapes
 ('%2F', '%2541') and dropped the slash of dot segments

---
 svgpy/url.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index ed92bc6..75bcfa3 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -270,10 +270,11 @@ class URL(object):
 
     @hash.setter
     def hash(self, fragment):
-        fragment = fragment.lstrip('#')
+        if fragment.startswith('#'):
+            fragment = fragment[1:]
         # unsafe:
         # U+0020 (SP), U+0022 ("), U+003C (<), U+003E (>), and U+0060 (`)
-        self._hash = quote(unquote(fragment),
+        self._hash = quote(fragment,
                            safe='!#$%&\'()*+,-./:;=?@[\\]^_{|}~')
 
     @property
@@ -361,12 +362,14 @@ class URL(object):
                 and '\\' in pathname):
             raise ValueError('Invalid pathname: ' + repr(pathname))
         if self._protocol not in ['blob:', 'data:']:
-            pathname = unquote(pathname).replace('\\', '/')
+            pathname = pathname.replace('\\', '/')
             # U+0026 (&)
             # U+002F (/), U+003A (:), U+003B (;), U+003D (=), U+0040 (@),
             # U+005B ([), U+005C (\), U+005D (]), U+005F (_), U+007E (~)
-            pathname = quote(pathname, safe='&/:;=@[]_~')
-            sep = len(pathname) >= 2 and pathname.endswith('/')
+            pathname = self._quote_path(pathname, safe='&/:;=@[]_~')
+            if self._protocol != 'about:' and not pathname.startswith('/'):
+                pathname = '/' + pathname
+            sep = pathname.endswith(('/', '/.', '/..'))
             pathname = os.path.normpath(pathname).replace('\\', '/')
             if sep and not pathname.endswith('/'):
                 pathname += '/'
@@ -525,7 +528,19 @@ class URL(object):
         self.password = pr.password if pr.password is not None else ''
         self.pathname = pr.path
         self.search = '?' + pr.query
-        self.hash = pr.fragment
+        self.hash = '#' + pr.fragment
+
+    @staticmethod
+    def _quote_path(path, safe):
+        quoted = ''
+        pos = 0
+        for it in _RE_PERCENT_ENCODED.finditer(path):
+            quoted += quote(path[pos:it.start()], safe=safe)
+            octet = int(it.group(1), 16)
+            # decodes unreserved characters only
+            quoted += quote(bytes([octet]), safe='')
+            pos = it.end()
+        return quoted + quote(path[pos:], safe=safe)
 
     @staticmethod
     def _resolve_url(url, base):
@@ -552,7 +567,7 @@ class URL(object):
             base.search = '?' + pr.query
         elif url.startswith('?'):
             base.search = '?' + pr.query
-        base.hash = pr.fragment
+        base.hash = '#' + pr.fragment
         return base.href
 
     def tostring(self, exclude_fragment=False):
-- 
2.43.0


From 953b578f8bc38c23c15ac081ca416759a6a9c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:12 +0000
Subject: [PATCH 56/98] fix: failed URL setters left half-changed URLs, and the
 port vanished when the protocol changed

---
 svgpy/url.py | 78 +++++++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 41 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 75bcfa3..540ffbe 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -226,7 +226,6 @@ class URL(object):
         self._username = ''
         self._password = ''
         self._hostname = ''
-        self._host = ''
         self._port = ''
         self._pathname = ''
         self._search_params = URLSearchParams()
@@ -255,7 +254,7 @@ class URL(object):
                      'protocol': self._protocol,
                      'username': self._username,
                      'password': self._password,
-                     'host': self._host,
+                     'host': self.host,
                      'hostname': self._hostname,
                      'port': self._port,
                      'pathname': self._pathname,
@@ -282,11 +281,14 @@ class URL(object):
         """str: The URL's host and port (if different from the default port
         for the scheme).
         """
-        port = self.port
-        if len(port) > 0:
-            if _SPECIAL_SCHEMES_PORT_NUMBERS.get(self.protocol, '') == port:
-                self._host = self._hostname
-        return self._host
+        host = self._hostname
+        port = self._port
+        if (len(host) > 0
+                and len(port) > 0
+                and _SPECIAL_SCHEMES_PORT_NUMBERS.get(
+                    self._protocol, '') != port):
+            host += ':' + port
+        return host
 
     @host.setter
     def host(self, host):
@@ -308,7 +310,16 @@ class URL(object):
 
     @href.setter
     def href(self, url):
-        self._parse_url(url)
+        parsed_url = URL(url)
+        self._protocol = parsed_url.protocol
+        self._username = parsed_url.username
+        self._password = parsed_url.password
+        self._hostname = parsed_url.hostname
+        self._port = parsed_url.port
+        self._pathname = parsed_url.pathname
+        self._hash = parsed_url.hash[1:]
+        self._search_params.clear()
+        self._search_params.update(parsed_url.search_params)
 
     @property
     def origin(self):
@@ -387,17 +398,10 @@ class URL(object):
     def port(self, port):
         if len(port) == 0:
             self._port = ''
-            self._host = self._hostname
             return
         elif not port.isdigit() or int(port) > 2 ** 16 - 1:
             raise ValueError('Invalid port: ' + repr(port))
-        self._port = port
-        self._host = self._hostname
-        if (len(port) > 0
-                and len(self._host) > 0
-                and _SPECIAL_SCHEMES_PORT_NUMBERS.get(
-                    self._protocol, '') != port):
-            self._host += ':' + port
+        self._port = str(int(port))
 
     @property
     def protocol(self):
@@ -408,10 +412,10 @@ class URL(object):
     def protocol(self, protocol):
         if len(protocol) > 0:
             protocol = protocol.rstrip(':').lower()
-            if (not protocol[0].isalpha()
-                    or (len(protocol) >= 2
-                        and not all(ch.isalnum() or ch in '+-.'
-                                    for ch in protocol[1:]))):
+            if (not protocol[:1].isalpha()
+                    or not protocol.isascii()
+                    or not all(ch.isalnum() or ch in '+-.'
+                               for ch in protocol[1:])):
                 raise ValueError('Invalid protocol: ' + repr(protocol))
             if not protocol.endswith(':'):
                 protocol += ':'
@@ -468,7 +472,7 @@ class URL(object):
 
     def _parse_host(self, host, hostname_state=False):
         if len(host) == 0:
-            self._host = self._hostname = ''
+            self._hostname = ''
             if not hostname_state:
                 self._port = ''
             return
@@ -484,33 +488,23 @@ class URL(object):
                 if ']' not in host:
                     raise ValueError('Invalid hostname: ' + repr(host))
                 end = host.rfind(']') + 1
-                self._host = self._hostname = host[:end]
+                hostname = host[:end]
             else:
                 # IPv6 address
                 end = -1
-                self._host = self._hostname = '[{}]'.format(host)
+                hostname = '[{}]'.format(host)
         elif colons == 1:
             # ascii-domain with port or IPv4 address with port
             end = host.rfind(':')
-            self._host = self._hostname = host[:end]
+            hostname = host[:end]
         else:
             # ascii-domain or IPv4 address
             end = -1
-            self._host = self._hostname = host
-        if not hostname_state:
-            # host state
-            if end < 0:
-                self._port = ''
-            else:
-                self.port = host[end + 1:]
-        else:
-            # hostname state
-            if end < 0:
-                self.port = self._port
-            else:
-                port = host[end + 1:]
-                if len(port) > 0:
-                    self.port = port
+            hostname = host
+        port = host[end + 1:] if end >= 0 else ''
+        if not hostname_state or len(port) > 0:
+            self.port = port
+        self._hostname = hostname
 
     def _parse_url(self, url):
         pr = urlsplit(url)
@@ -520,9 +514,11 @@ class URL(object):
             raise ValueError('Invalid URL: ' + repr(url))
         self.protocol = pr.scheme
         if len(pr.netloc) == 0:
-            self._host = self._hostname = self._port = ''
+            self._hostname = self._port = ''
         else:
             self._port = str(pr.port) if pr.port is not None else ''
+            if pr.hostname is None:
+                raise ValueError('Invalid URL: ' + repr(url))
             self.hostname = pr.hostname
         self.username = pr.username if pr.username is not None else ''
         self.password = pr.password if pr.password is not None else ''
@@ -588,7 +584,7 @@ class URL(object):
             if protocol not in ['about:', 'blob:', 'data:']:
                 parts.append('//')
             if len(host) > 0 and protocol != 'file:':
-                if len(self.username) > 0:
+                if len(self.username) > 0 or len(self.password) > 0:
                     parts.append(self.username)
                     if len(self.password) > 0:
                         parts.append(':' + self.password)
-- 
2.43.0


From eb1fb9adaf140ef5c522b93d7cb6f7cc552bcaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:21 +0000
Subject: [PATCH 57/98] fix: SVG documents with an XML declaration, of other
 encodings or in data: URLs could not be loaded

---
 svgpy/window.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 11f1946..6abdc7b 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -13,10 +13,11 @@
 # limitations under the License.
 
 
+import re
 from abc import ABC, abstractmethod
 from collections.abc import Collection
 from fractions import Fraction
-from io import StringIO
+from io import BytesIO, StringIO
 from logging import getLogger
 
 from lxml import etree
@@ -33,6 +34,8 @@ from .utils import get_content_type, get_element_by_id, \
     get_elements_by_class_name, get_elements_by_tag_name, \
     get_elements_by_tag_name_ns, load, normalize_url
 
+_RE_XML_DECLARATION = re.compile(r'\A\ufeff?<\?xml\s[^>]*\?>')
+
 
 class BrowsingContext(object):
     """A browsing context object that is associated with the document."""
@@ -840,11 +843,15 @@ class SVGDOMImplementation(DOMImplementation):
         if isinstance(source, str):
             data, headers = load(source)
             content_type = get_content_type(headers)
-            if content_type is None:
-                charset = 'utf-8'
+            charset = (content_type.get('charset')
+                       if content_type is not None else None)
+            if isinstance(data, bytes) and charset is not None:
+                data = data.decode(charset)
+            if isinstance(data, str):
+                # the encoding declaration does not apply to decoded text
+                data = StringIO(_RE_XML_DECLARATION.sub('', data))
             else:
-                charset = content_type.get('charset', 'utf-8')
-            data = StringIO(data.decode(charset))
+                data = BytesIO(data)
         else:
             data = source
         tree = self._parser.parse(data)
-- 
2.43.0


From 90909e17983b223c584b0b66bfac5070cc310c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 58/98] fix: mask text dropped one of mask-origin and
 mask-clip, and an invalid overflow value raised KeyError

---
 svgpy/css/shorthands.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index c8d8eca..1ab83df 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -708,6 +708,9 @@ class MaskShorthand(ShorthandProperty):
         if mask_position == 'initial' and mask_size != 'initial':
             # <position> [ / <bg-size> ]?
             return ''
+        elif ((mask_origin == 'initial') != (mask_clip == 'initial')):
+            # a single <geometry-box> sets both
+            return ''
 
         values = list()
         for property_name in shorthand_property_map['mask']:
@@ -746,7 +749,7 @@ class OverflowShorthand(ShorthandProperty):
             for property_name in shorthand_property_map['overflow']:
                 components_map[property_name] = initial_value.copy()
         else:
-            temp = [x for x in components_map['overflow-x']
+            temp = [x for x in components_map.get('overflow-x', ())
                     if x.type != 'whitespace']
             if not (1 <= len(temp) <= 2):
                 return False
-- 
2.43.0


From 8f52416caaa22941a8582fadecf79245c55fb2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 59/98] fix: aspect-ratio media queries matched every ratio for
 ':' and '<', and media queries in relative units never ended

---
 svgpy/css/mediaquery.py | 21 ++++++++++++---------
 svgpy/window.py         | 33 +++++++++++++++++++++------------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 0ca8242..ce629da 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -205,20 +205,23 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
             if not result:
                 return False, None
         elif ((left_expr == MQ_EXPR_NAME or right_expr == MQ_EXPR_NAME)
-              and name == 'aspect-ratio'):
+              and name in ('aspect-ratio', 'device-aspect-ratio')):
             # value: <ratio>
             # e.g.: '(aspect-ratio: 16/9)' -> '(aspect-ratio == 16/9)'
-            left_ratio = Fraction(left_value)
-            right_ratio = Fraction(right_value)
-            if op[-1] == '=' and left_ratio == right_ratio:
+            try:
+                left_ratio = Fraction(left_value)
+                right_ratio = Fraction(right_value)
+            except (ValueError, ZeroDivisionError) as exp:
+                logger.debug('feature \'{}\': {} {} {}: exception={}'.format(
+                    name, repr(left_value), op, repr(right_value), repr(exp)))
+                return False, None
+            if ((left_ratio == right_ratio and op[-1] == '=')
+                    or (left_ratio > right_ratio and op[0] == '>')
+                    or (left_ratio < right_ratio and op[0] == '<')):
                 logger.debug('feature \'{}\': {} {} {}: result={}'.format(
                     name, repr(left_ratio), op, repr(right_ratio), True))
             else:
-                cmp = left_ratio > right_ratio
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), cmp))
-                if (op[0] == '>' and not cmp) or (op[0] == '<' and cmp):
-                    return False, None
+                return False, None
         else:
             # value: <length> | <resolution> | <mq-boolean> | <integer>
             # e.g.: '(1 < color-index < 255)' ->
diff --git a/svgpy/window.py b/svgpy/window.py
index 6abdc7b..5e0333b 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -694,9 +694,25 @@ class DOMImplementation(ABC):
         raise NotImplementedError
 
 
+def _mql_length(value, win):
+    # relative lengths in media queries are based on the initial values and
+    # the size of the window, and not on the style of the document
+    length = SVGLength(value)
+    size = {
+        'vw': win.inner_width,
+        'vh': win.inner_height,
+        'vmin': min(win.inner_width, win.inner_height),
+        'vmax': max(win.inner_width, win.inner_height),
+    }.get(length.unit)
+    if size is not None:
+        length = SVGLength(length.value(length.unit) * size / 100,
+                           SVGLength.TYPE_PX)
+    return length
+
+
 def _mql_compare(left, right, user_data):
-    left_value = SVGLength(left, context=user_data)
-    right_value = SVGLength(right, context=user_data)
+    left_value = _mql_length(left, user_data)
+    right_value = _mql_length(right, user_data)
     if left_value == right_value:
         return 0
     cmp = 1 if left_value > right_value else -1
@@ -721,16 +737,9 @@ class MediaQueryList(object):
     @property
     def matches(self):
         """bool: The matches state of the associated media query list."""
-        doc = self._browsing_context.document
         win = self._browsing_context.window
-        context = doc.document_element
-        if context is not None:
-            _, _, vpw, vph = context.get_viewport_size()
-            width = vpw.value()
-            height = vph.value()
-        else:
-            width = win.inner_width
-            height = win.inner_height
+        width = win.inner_width
+        height = win.inner_height
         aspect_ratio = Fraction(int(width), int(height))
         screen = win.screen
         device_aspect_ratio = Fraction(int(screen.width), int(screen.height))
@@ -756,7 +765,7 @@ class MediaQueryList(object):
             'device-aspect-ratio': '{}'.format(device_aspect_ratio),
         }
         matches, _ = mq.match(self._tree, conditions, _mql_compare,
-                              user_data=context)
+                              user_data=win)
         return matches
 
     @property
-- 
2.43.0


From 306363d5a0a8dafc3aa4e9c9913d33470c7c5254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 60/98] fix: media queries with nested conditions, '=', ranges
 without spaces or line breaks were misread; an empty list did not match

---
 svgpy/css/mediaquery.py | 108 ++++++++++++++++++++++++----------------
 svgpy/window.py         |   3 ++
 2 files changed, 68 insertions(+), 43 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index ce629da..2e5a852 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -38,22 +38,20 @@ _RE_MEDIA_QUERY = re.compile(
     re.IGNORECASE | re.MULTILINE)
 
 _RE_MEDIA_IN_PARENS = re.compile(
-    r"(?P<mf_plain>\(\s*\S+\s*:\s*\S+\s*\))"
-    r"|(?P<mf_boolean>\(\s*\S+\s*\))"
-    r"|(?P<mf_range>\(\s*[^<> ]+\s*[<>]=?\s*[^<>) ]+\s*"
-    r"([<>]=?\s*[^<>) ]+\s*)?\))"
-    r"|(?P<media_not>not\s+\(.+\))"
-    r"|(?P<media_in_parens>\(.+\))"
-    r"|(\s+(?P<op>(and|or))\s+)",
+    r"(?P<mf_plain>\(\s*[^\s<>=:()]+\s*:\s*[^<>=:()]+\))"
+    r"|(?P<mf_boolean>\(\s*[^\s<>=:()]+\s*\))"
+    r"|(?P<mf_range>\(\s*[^\s<>=:()]+\s*([<>]=?|=)\s*[^\s<>=:()]+\s*"
+    r"(([<>]=?|=)\s*[^\s<>=:()]+\s*)?\))",
     re.IGNORECASE | re.MULTILINE)
 
 _RE_MF_PLAIN = re.compile(
-    r'(\(\s*(?P<mf_name>\S+)\s*:\s*(?P<mf_value>\S+)\s*\))',
+    r'(\(\s*(?P<mf_name>[^\s:]+)\s*:\s*(?P<mf_value>[^()]+?)\s*\))',
     re.MULTILINE)
 
 _RE_MF_RANGE = re.compile(
-    r"(\(\s*(?P<left>[^<> ]+)\s*(?P<op>[<>]=?)\s*(?P<right>[^<>) ]+)\s*"
-    r"((?P<op2>[<>]=?)\s*(?P<right2>[^<>) ]+)\s*)?\))",
+    r"(\(\s*(?P<left>[^\s<>=]+)\s*(?P<op>[<>]=?|=)"
+    r"\s*(?P<right>[^\s<>=)]+)\s*"
+    r"((?P<op2>[<>]=?|=)\s*(?P<right2>[^\s<>=)]+)\s*)?\))",
     re.MULTILINE)
 
 _RE_WHITESPACE = re.compile(r'\s+', re.MULTILINE)
@@ -82,7 +80,7 @@ logger = getLogger(__name__)
 
 def parse(query):
     node_list = list()
-    media_query_list = query.strip().lower().split(',')
+    media_query_list = ' '.join(query.lower().split()).split(',')
     for media_query in media_query_list:
         media_query = media_query.strip()
         if len(media_query) == 0:
@@ -127,9 +125,9 @@ def _match_node(node, conditions, compare_func, not_op=False, user_data=None):
     ops = node.get(MQ_OPS, [])
     if len(ops) > 0 and ops.count('and') > 0 and ops.count('or') > 0:
         return False, None
-    result = True
+    children = node.get(MQ_VALUES, [])
+    result = len(children) > 0
     matched_media = None
-    children = node[MQ_VALUES]
     for child in children:
         expr = child[MQ_EXPR]
         if expr == MQ_EXPR_NAME:
@@ -143,10 +141,10 @@ def _match_node(node, conditions, compare_func, not_op=False, user_data=None):
                                                user_data)
             if result and media and matched_media is None:
                 matched_media = media
-        elif expr == MQ_EXPR_UNARY_OP:
-            # <media-not>
+        elif expr in (MQ_EXPR_UNARY_OP, MQ_EXPR_BOOL_OP):
+            # <media-not> | <media-condition>
             result, media = _match_node(child, conditions, compare_func,
-                                        not_op=True, user_data=user_data)
+                                        user_data=user_data)
             if result and media and matched_media is None:
                 matched_media = media
         else:
@@ -377,34 +375,58 @@ def _parse_media_in_parens(query, parent):
     else:
         node = parent
     node.setdefault(MQ_OPS, [])
-    for it in _RE_MEDIA_IN_PARENS.finditer(query):
-        # <mf-plain>
-        mf_plain = it.group('mf_plain')
-        if mf_plain:
-            _parse_mf_plain(mf_plain, parent)
-
-        # <mf-boolean>
-        mf_boolean = it.group('mf_boolean')
-        if mf_boolean:
-            _parse_mf_boolean(mf_boolean, parent)
+    values = node.setdefault(MQ_VALUES, [])
+    for segment in _split_media_in_parens(query):
+        if not segment.startswith('('):
+            # and | or
+            for op in segment.split():
+                if node.get(MQ_OP) is None:
+                    node[MQ_OP] = op
+                node[MQ_OPS].append(op)
+            continue
 
-        # <mf-range>
-        mf_range = it.group('mf_range')
-        if mf_range:
-            _parse_mf_range(mf_range, parent)
+        it = _RE_MEDIA_IN_PARENS.fullmatch(segment)
+        if it is None:
+            # nested <media-condition>
+            child = dict({
+                MQ_EXPR: MQ_EXPR_BOOL_OP,
+                MQ_VALUES: [],
+            })
+            condition = segment[1:-1].strip()
+            if condition.startswith('(') or condition.startswith('not'):
+                _parse_media_query(condition, child)
+            values.append(child)
+        elif it.group('mf_plain'):
+            # <mf-plain>
+            _parse_mf_plain(segment, parent)
+        elif it.group('mf_boolean'):
+            # <mf-boolean>
+            _parse_mf_boolean(segment, parent)
+        else:
+            # <mf-range>
+            _parse_mf_range(segment, parent)
+    return parent
 
-        # <media-not>
-        media_not = it.group('media_not')
-        if media_not:
-            _parse_media_not(media_not, parent)
 
-        # and | or
-        op = it.group('op')
-        if op:
-            if node.get(MQ_OP) is None:
-                node[MQ_OP] = op
-            node[MQ_OPS].append(op)
-    return parent
+def _split_media_in_parens(query):
+    """Splits the query into the outermost groups in parentheses, and the
+    texts between them."""
+    segments = list()
+    depth = 0
+    start = 0
+    for index, c in enumerate(query):
+        if c == '(':
+            if depth == 0:
+                segments.append(query[start:index].strip())
+                start = index
+            depth += 1
+        elif c == ')':
+            depth -= 1
+            if depth == 0:
+                segments.append(query[start:index + 1])
+                start = index + 1
+    segments.append(query[start:].strip())
+    return [segment for segment in segments if len(segment) > 0]
 
 
 def _parse_mf_boolean(query, parent):
@@ -417,7 +439,7 @@ def _parse_mf_boolean(query, parent):
         values = parent.setdefault(MQ_VALUES, [])
     node = dict({
         MQ_EXPR: MQ_EXPR_NAME,
-        MQ_ID: query.strip('()'),
+        MQ_ID: query.strip('()').strip(),
     })
     values.append(node)
     return node
@@ -439,7 +461,7 @@ def _parse_mf_plain(query, parent):
     values.append(node)
     matched = _RE_MF_PLAIN.match(query)
     mf_name = matched.group('mf_name')
-    mf_value = matched.group('mf_value')
+    mf_value = ''.join(matched.group('mf_value').split())
     if ((mf_name.startswith('max-') or mf_name.startswith('min-'))
             and mf_name[4:] in DISCRETE_FEATURES):
         op = '=='
diff --git a/svgpy/window.py b/svgpy/window.py
index 5e0333b..3dc1b27 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -737,6 +737,9 @@ class MediaQueryList(object):
     @property
     def matches(self):
         """bool: The matches state of the associated media query list."""
+        if len(self._query.strip()) == 0:
+            # an empty media query list evaluates to true
+            return True
         win = self._browsing_context.window
         width = win.inner_width
         height = win.inner_height
-- 
2.43.0


From 623882379c4474ea525b0888c7a93ec5c4858d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 61/98] fix: nested @import was resolved against the wrong
 sheet, circular @import never ended, and invalid sheet addresses broke
 computed styles

---
 svgpy/css/__init__.py | 28 +++++++++++++++++++++++++---
 svgpy/style.py        | 14 ++++++++++++--
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 4499500..3461448 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -925,6 +925,7 @@ class StyleSheet(object):
         if media is not None:
             self._media.media_text = media
         self._href = href
+        self._base_url = None
         self._owner_node = owner_node
         self._parent_style_sheet = parent_style_sheet
         self._title = title
@@ -1149,7 +1150,9 @@ class CSSImportRule(CSSRule):
     def _parse_prelude(self, prelude):
         if self.parent_style_sheet is not None:
             owner_node = self.parent_style_sheet.owner_node
-            base_url = self.parent_style_sheet.href
+            base_url = self.parent_style_sheet._base_url
+            if base_url is None:
+                base_url = self.parent_style_sheet.href
             if base_url is None and owner_node is not None:
                 doc = owner_node.owner_document
                 if doc is not None:
@@ -1161,13 +1164,20 @@ class CSSImportRule(CSSRule):
         for token in prelude:
             if self._href is None:
                 if token.type in ('string', 'url'):
-                    url = normalize_url(token.value, base_url)
+                    try:
+                        url = normalize_url(token.value, base_url)
+                    except ValueError as exp:
+                        logger = getLogger('{}.{}'.format(
+                            __name__, type(self).__name__))
+                        logger.info('invalid URL: \'{}\': {}'.format(
+                            token.value, repr(exp)))
+                        break
                     self._href = url.href
             else:
                 mediums.append(token)
         if len(mediums) > 0:
             self._media.media_text = tinycss2.serialize(mediums)
-        if self._href is None:
+        if self._href is None or self._is_circular():
             self._style_sheet = CSSStyleSheet(owner_node=owner_node,
                                               media=self._media.media_text,
                                               owner_rule=self)
@@ -1176,6 +1186,17 @@ class CSSImportRule(CSSRule):
                                                 owner_node=owner_node,
                                                 parent_rule=self)
 
+    def _is_circular(self):
+        style_sheet = self.parent_style_sheet
+        while style_sheet is not None:
+            if style_sheet._base_url == self._href:
+                return True
+            owner_rule = style_sheet.owner_rule
+            style_sheet = (owner_rule.parent_style_sheet
+                           if owner_rule is not None
+                           else None)
+        return False
+
     @property
     def href(self):
         """str: The location of the style sheet."""
@@ -1722,6 +1743,7 @@ class CSSParser(object):
                 'media': owner_node.get('media'),
             })
         css_style_sheet = CSSStyleSheet(owner_rule=parent_rule, **extra)
+        css_style_sheet._base_url = url
         logger = getLogger('{}.{}'.format(__name__, cls.__name__))
         try:
             logger.debug('urlopen \'{}\''.format(url))
diff --git a/svgpy/style.py b/svgpy/style.py
index 44679bb..960a7e2 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -217,7 +217,12 @@ def get_css_style_sheet_from_element(element, doc=None):
                 logger.debug('media not matched: {} media={}'.format(
                     element, repr(media)))
                 return None
-        url = normalize_url(href, base_url)
+        try:
+            url = normalize_url(href, base_url)
+        except ValueError as exp:
+            logger.info('invalid URL: {} href={}: {}'.format(
+                element, repr(href), repr(exp)))
+            return None
         css_style_sheet = CSSParser.parse(url.href,
                                           owner_node=element)
         return css_style_sheet
@@ -297,7 +302,12 @@ def get_css_style_sheets_from_xml_stylesheet(root):
                     repr(media)))
                 continue
         encoding = element.get('charset')
-        url = normalize_url(href, base_url)
+        try:
+            url = normalize_url(href, base_url)
+        except ValueError as exp:
+            logger.info('invalid URL: {} href={}: {}'.format(
+                element, repr(href), repr(exp)))
+            continue
         css_style_sheet = CSSParser.parse(url.href,
                                           owner_node=element,
                                           encoding=encoding)
-- 
2.43.0


From 008a2c78d776c4792612596d805a0ccd75012d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 62/98] fix: @namespace with a string was ignored and broke
 computed styles

---
 svgpy/css/__init__.py | 2 +-
 svgpy/style.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 3461448..f618fc8 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1295,7 +1295,7 @@ class CSSNamespaceRule(CSSRule):
 
     def _parse_prelude(self, prelude):
         for token in prelude:
-            if token.type == 'url':
+            if token.type in ('string', 'url'):
                 self._namespace_uri = token.value
             elif token.type == 'ident':
                 self._prefix = token.value
diff --git a/svgpy/style.py b/svgpy/style.py
index 960a7e2..0a22ba9 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -361,7 +361,7 @@ def get_css_style(element, css_rules):
             # TODO: support CSS @font-feature-values at-rule.
             pass
         elif css_rule.type == CSSRule.NAMESPACE_RULE:
-            if len(css_rule.namespace_uri) > 0:
+            if css_rule.namespace_uri:
                 prefix = css_rule.prefix
                 if len(prefix) == 0:
                     prefix = 'svg'
-- 
2.43.0


From cfad35e56aecdd5cfb6c0bfd280d12f9b6425bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 63/98] fix: style sheets ignored @charset and the text after a
 comment in a style element

---
 svgpy/css/__init__.py | 16 ++++++++--------
 svgpy/style.py        |  9 ++++++---
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index f618fc8..21cb58e 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -21,6 +21,7 @@ from logging import getLogger
 from urllib.error import URLError
 
 import tinycss2
+import webencodings
 
 from .longhands import Longhand
 from .props import PropertyDescriptor, PropertySyntax, \
@@ -1748,21 +1749,20 @@ class CSSParser(object):
         try:
             logger.debug('urlopen \'{}\''.format(url))
             data, headers = load(url)
+            content_type = get_content_type(headers)
+            protocol_encoding = (content_type.get('charset')
+                                 if content_type is not None else None)
             if data is None:
                 data = b''
             elif isinstance(data, str):
                 # the decoded text of a data: URL
                 data = data.encode('utf-8')
-                encoding = 'utf-8'
-            if encoding is None:
-                content_type = get_content_type(headers)
-                if content_type is None:
-                    encoding = 'utf-8'
-                else:
-                    encoding = content_type.get('charset', 'utf-8')
+                protocol_encoding = 'utf-8'
             rules, encoding = tinycss2.parse_stylesheet_bytes(
                 css_bytes=data,
-                protocol_encoding=encoding,
+                protocol_encoding=protocol_encoding,
+                environment_encoding=(webencodings.lookup(encoding)
+                                      if encoding is not None else None),
                 skip_comments=True,
                 skip_whitespace=True)
             css_rules = CSSParser.parse_rules(
diff --git a/svgpy/style.py b/svgpy/style.py
index 0a22ba9..c8caa54 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -227,12 +227,15 @@ def get_css_style_sheet_from_element(element, doc=None):
                                           owner_node=element)
         return css_style_sheet
     else:  # 'style'
-        if element.type != 'text/css' or element.text is None:
+        # the text around comments belongs to the style sheet
+        text = (element.text or '') + ''.join(
+            [child.tail or '' for child in element])
+        if element.type != 'text/css' or len(text) == 0:
             logger.debug(
                 'not a style sheet: {} type={} size={}'.format(
                     element,
                     repr(element.type),
-                    0 if element.text is None else len(element.text)))
+                    len(text)))
             return None
         media = element.media
         if media not in ['', 'all']:
@@ -248,7 +251,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                                         owner_node=element,
                                         title=element.title,
                                         media=element.media)
-        css_rules = CSSParser.fromstring(element.text,
+        css_rules = CSSParser.fromstring(text,
                                          parent_style_sheet=css_style_sheet)
         css_style_sheet.css_rules.extend(css_rules)
         return css_style_sheet
-- 
2.43.0


From 94afa0799e97e0b127a2b5b2a4ce4fab8c31df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 64/98] fix: media queries on documents of zero size raised
 ZeroDivisionError; width and height are those of the document again

---
 svgpy/window.py | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 3dc1b27..1e6dacc 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -54,6 +54,25 @@ class BrowsingContext(object):
             global window
             window_ = window
         self._window = window_
+        self._measuring = False
+
+    def get_viewport_size(self):
+        """Returns the width and height of the viewport of the document.
+
+        Returns:
+            tuple[float, float]: The viewport size of the document element, or
+                the size of the window if there is no document element, or if
+                the media queries are evaluated in order to compute it.
+        """
+        context = self.document.document_element
+        if context is None or self._measuring:
+            return self._window.inner_width, self._window.inner_height
+        self._measuring = True
+        try:
+            _, _, vpw, vph = context.get_viewport_size()
+            return vpw.value(), vph.value()
+        finally:
+            self._measuring = False
 
     @property
     def document(self):
@@ -694,15 +713,16 @@ class DOMImplementation(ABC):
         raise NotImplementedError
 
 
-def _mql_length(value, win):
+def _mql_length(value, viewport_size):
     # relative lengths in media queries are based on the initial values and
-    # the size of the window, and not on the style of the document
+    # the size of the viewport, and not on the style of the document
     length = SVGLength(value)
+    width, height = viewport_size
     size = {
-        'vw': win.inner_width,
-        'vh': win.inner_height,
-        'vmin': min(win.inner_width, win.inner_height),
-        'vmax': max(win.inner_width, win.inner_height),
+        'vw': width,
+        'vh': height,
+        'vmin': min(width, height),
+        'vmax': max(width, height),
     }.get(length.unit)
     if size is not None:
         length = SVGLength(length.value(length.unit) * size / 100,
@@ -741,16 +761,12 @@ class MediaQueryList(object):
             # an empty media query list evaluates to true
             return True
         win = self._browsing_context.window
-        width = win.inner_width
-        height = win.inner_height
-        aspect_ratio = Fraction(int(width), int(height))
+        width, height = self._browsing_context.get_viewport_size()
         screen = win.screen
-        device_aspect_ratio = Fraction(int(screen.width), int(screen.height))
         conditions = {
             'media': screen.media,
             'width': '{}px'.format(width),
             'height': '{}px'.format(height),
-            'aspect-ratio': '{}'.format(aspect_ratio),
             'orientation': screen.orientation.type,
             'resolution': '{}dppx'.format(win.device_pixel_ratio),
             'scan': screen.scan,
@@ -765,10 +781,15 @@ class MediaQueryList(object):
             # deprecated media features
             'device-width': '{}px'.format(screen.width),
             'device-height': '{}px'.format(screen.height),
-            'device-aspect-ratio': '{}'.format(device_aspect_ratio),
         }
+        if int(height) > 0:
+            conditions['aspect-ratio'] = str(
+                Fraction(int(width), int(height)))
+        if int(screen.height) > 0:
+            conditions['device-aspect-ratio'] = str(
+                Fraction(int(screen.width), int(screen.height)))
         matches, _ = mq.match(self._tree, conditions, _mql_compare,
-                              user_data=win)
+                              user_data=(width, height))
         return matches
 
     @property
-- 
2.43.0


From 348eeb76bdaa7022cca71b400d45315590078a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 65/98] fix: white space in strings and escapes of style sheets
 was collapsed, feature values without a final semicolon were lost and
 at-rules without a block raised TypeError

---
 svgpy/css/__init__.py | 74 +++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 21cb58e..202b580 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -38,13 +38,17 @@ from ..exception import NoModificationAllowedError
 from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
     load, normalize_url, split_priority, style_to_dict
 
-_RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
+_RE_COLLAPSIBLE_WHITESPACE = re.compile(
+    r'("(?:\\.|[^"\\\r\n])*"|\'(?:\\.|[^\'\\\r\n])*\'|\\.)'
+    r'|(\A[\x20\t\r\n\f]+|[\x20\t\r\n\f]+\Z)'
+    r'|[\x20\r\n]+',
+    re.DOTALL)
 
 
 def normalize_text(text):
-    out_text = text.strip().replace(
-        '\r\n', ' ').replace('\r', ' ').replace('\n', ' ')
-    out_text = _RE_COLLAPSIBLE_WHITESPACE.sub(' ', out_text)
+    # white space in strings and escapes is not collapsible
+    out_text = _RE_COLLAPSIBLE_WHITESPACE.sub(
+        lambda m: m.group(1) or ('' if m.group(2) else ' '), text)
     return out_text
 
 
@@ -1049,37 +1053,33 @@ class CSSFontFeatureValuesRule(CSSRule):
                                          skip_whitespace=True)
         for node in nodes:
             if node.type == 'at-rule':
-                # tinycss2.parse_one_component_value() returns ParseError
                 feature_type = node.lower_at_keyword
-                name = None
-                feature_values = None
-                for token in node.content:
-                    if token.type == 'ident':
-                        name = token.value
-                    elif token.type == 'literal' and token.value == ':':
-                        if name is not None:
-                            feature_values = list()
-                    elif token.type == 'number' and token.is_integer:
-                        if feature_values is not None and token.int_value >= 0:
-                            feature_values.append(token.int_value)
-                    elif token.type == 'literal' and token.value == ';':
-                        if (name is not None
-                                and feature_values is not None
-                                and len(feature_values) > 0):
-                            if feature_type == 'annotation':
-                                self._annotation[name] = feature_values
-                            elif feature_type == 'character-variant':
-                                self._character_variant[name] = feature_values
-                            elif feature_type == 'ornaments':
-                                self._ornaments[name] = feature_values
-                            elif feature_type == 'styleset':
-                                self._styleset[name] = feature_values
-                            elif feature_type == 'stylistic':
-                                self._stylistic[name] = feature_values
-                            elif feature_type == 'swash':
-                                self._swash[name] = feature_values
-                        name = None
-                        feature_values = None
+                for declaration in tinycss2.parse_declaration_list(
+                        node.content or [],
+                        skip_comments=True,
+                        skip_whitespace=True):
+                    if declaration.type != 'declaration':
+                        continue
+                    name = declaration.name
+                    feature_values = [
+                        token.int_value for token in declaration.value
+                        if (token.type == 'number'
+                            and token.is_integer
+                            and token.int_value >= 0)]
+                    if len(feature_values) == 0:
+                        continue
+                    if feature_type == 'annotation':
+                        self._annotation[name] = feature_values
+                    elif feature_type == 'character-variant':
+                        self._character_variant[name] = feature_values
+                    elif feature_type == 'ornaments':
+                        self._ornaments[name] = feature_values
+                    elif feature_type == 'styleset':
+                        self._styleset[name] = feature_values
+                    elif feature_type == 'stylistic':
+                        self._stylistic[name] = feature_values
+                    elif feature_type == 'swash':
+                        self._swash[name] = feature_values
 
     @property
     def font_family(self):
@@ -1780,6 +1780,12 @@ class CSSParser(object):
         css_rules = list()
         for rule in rules:
             if rule.type == 'at-rule':
+                if (rule.content is None
+                        and rule.lower_at_keyword in ('font-face',
+                                                      'font-feature-values',
+                                                      'media')):
+                    # a block is required
+                    continue
                 if rule.lower_at_keyword == 'font-face':
                     # @font-face at-rule
                     css_rule = CSSFontFaceRule(
-- 
2.43.0


From f2916c5ea1da2f6fc0c1333aa92c5e7bd1abc2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 66/98] fix: math functions took 'a + b * c - d * e' for '(a +
 b * c - d) * e' and could not read parentheses and expressions as arguments

---
 svgpy/css/types.py | 271 +++++++++++++--------------------------------
 1 file changed, 80 insertions(+), 191 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 1909543..7a469c4 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -832,40 +832,6 @@ class CSSKeywordValue(CSSStyleValue):
         self._value = value
 
 
-class _MathExpression(object):
-
-    def __init__(self, parent, operator, values):
-        self._parent = parent
-        self._operator = operator
-        self._values = list(values)
-
-    def __repr__(self):
-        return repr({
-            'operator': self._operator,
-            'values': self._values
-        })
-
-    @property
-    def operator(self):
-        return self._operator
-
-    @operator.setter
-    def operator(self, operator):
-        self._operator = operator
-
-    @property
-    def parent(self):
-        return self._parent
-
-    @parent.setter
-    def parent(self, parent):
-        self._parent = parent
-
-    @property
-    def values(self):
-        return self._values
-
-
 class CSSNumericValue(CSSStyleValue):
     """Represents the base class of all numeric CSS values."""
 
@@ -873,138 +839,92 @@ class CSSNumericValue(CSSStyleValue):
         super().__init__()
 
     @staticmethod
-    def _parse_math_expression(css_text, token, root_node=None):
+    def _parse_math_expression(css_text, token):
         function_name = token.lower_name
         if function_name == 'calc':
-            operator = None
-        elif function_name == 'clamp':
-            operator = CSSMathOperator.CLAMP
-        elif function_name == 'max':
-            operator = CSSMathOperator.MAX
-        elif function_name == 'min':
-            operator = CSSMathOperator.MIN
-        else:
+            value = CSSNumericValue._parse_math_sum(css_text, token.arguments)
+            if not isinstance(value, (CSSMathProduct, CSSMathSum)):
+                value = CSSMathSum(value)
+            return value
+        elif function_name not in ('clamp', 'max', 'min'):
             raise ValueError('Invalid math expression: ' + repr(token))
 
-        args = [arg for arg in token.arguments if arg.type != 'whitespace']
-        if len(args) == 0:
+        arguments = [[]]
+        for argument in token.arguments:
+            if argument.type == 'literal' and argument.value == ',':
+                arguments.append([])
+            else:
+                arguments[-1].append(argument)
+        values = [CSSNumericValue._parse_math_sum(css_text, tokens)
+                  for tokens in arguments]
+        if function_name == 'max':
+            return CSSMathMax(*values)
+        elif function_name == 'min':
+            return CSSMathMin(*values)
+        elif len(values) != 3:
             raise ValueError('Invalid math expression: ' + repr(css_text))
-        current_node = _MathExpression(root_node, operator, [])
-        while len(args) > 0:
-            arg = args.pop(0)
-            operator = current_node.operator
-            if arg.type == 'literal':
-                literal = arg.value
-                if (literal == ',' and operator in (CSSMathOperator.CLAMP,
-                                                    CSSMathOperator.MAX,
-                                                    CSSMathOperator.MIN)):
-                    continue
-                elif literal == '*':
-                    if operator is None:
-                        current_node.operator = CSSMathOperator.PRODUCT
-                    elif operator != CSSMathOperator.PRODUCT:
-                        previous_node = current_node
-                        previous_value = previous_node.values.pop(-1)
-                        current_node = _MathExpression(
-                            previous_node,
-                            CSSMathOperator.PRODUCT,
-                            [previous_value])
-                        previous_node.values.append(current_node)
-                elif literal == '+':
-                    if operator is None:
-                        current_node.operator = CSSMathOperator.SUM
-                    elif operator != CSSMathOperator.SUM:
-                        while True:
-                            parent_node = current_node.parent
-                            if parent_node is None:
-                                break
-                            current_node = parent_node
-                        previous_node = current_node
-                        current_node = _MathExpression(
-                            previous_node.parent,
-                            CSSMathOperator.SUM,
-                            [previous_node])
-                        previous_node.parent = current_node
-                elif literal == '/':
-                    if len(args) == 0:
-                        raise ValueError('Invalid math expression: '
-                                         + repr(css_text))
-                    next_token = args.pop(0)
-                    next_value = CSSNumericValue._parse_numeric_value(
-                        css_text, next_token, root_node=current_node)
-                    next_node = _MathExpression(
-                        current_node,
-                        CSSMathOperator.INVERT,
-                        [next_value])
-                    if operator == CSSMathOperator.PRODUCT:
-                        current_node.values.append(next_node)
-                    else:
-                        if len(current_node.values) == 1:
-                            current_node.operator = CSSMathOperator.PRODUCT
-                            current_node.values.append(next_node)
-                        else:
-                            previous_value = current_node.values.pop(-1)
-                            node = _MathExpression(
-                                current_node,
-                                CSSMathOperator.PRODUCT,
-                                [previous_value, next_node])
-                            current_node.values.append(node)
-                elif literal == '-':
-                    # TODO: fix process of a "negate" node.
-                    if len(args) == 0:
-                        raise ValueError('Invalid math expression: '
-                                         + repr(css_text))
-                    next_token = args.pop(0)
-                    next_value = CSSNumericValue._parse_numeric_value(
-                        css_text, next_token, root_node=current_node)
-                    next_node = _MathExpression(
-                        current_node,
-                        CSSMathOperator.NEGATE,
-                        [next_value])
-                    if operator == CSSMathOperator.SUM:
-                        current_node.values.append(next_node)
-                    else:
-                        if len(current_node.values) == 1:
-                            current_node.operator = CSSMathOperator.SUM
-                            current_node.values.append(next_node)
-                        else:
-                            parent_node = current_node.parent
-                            if parent_node is None:
-                                parent_node = _MathExpression(
-                                    None,
-                                    CSSMathOperator.SUM,
-                                    [current_node, next_node])
-                                current_node.parent = parent_node
-                                next_node.parent = parent_node
-                                current_node = parent_node
-                            else:
-                                previous_value = parent_node.values.pop(-1)
-                                node = _MathExpression(
-                                    current_node,
-                                    CSSMathOperator.SUM,
-                                    [previous_value, next_node])
-                                parent_node.values.append(node)
-                else:
-                    raise ValueError('Invalid math expression: ' + repr(arg))
+        return CSSMathClamp(*values)
+
+    @staticmethod
+    def _parse_math_sum(css_text, tokens):
+        tokens = [token for token in tokens
+                  if token.type not in ('comment', 'whitespace')]
+        values = [CSSNumericValue._parse_math_product(css_text, tokens)]
+        while len(tokens) > 0:
+            operator = tokens.pop(0)
+            if operator == '+':
+                value = CSSNumericValue._parse_math_product(css_text, tokens)
+            elif operator == '-':
+                value = CSSNumericValue._parse_math_product(css_text, tokens,
+                                                            negate=True)
+                if (len(values) > 1
+                        and isinstance(values[-1], CSSMathProduct)
+                        and isinstance(value, CSSMathNegate)):
+                    # 'a + b * c - d'
+                    # => CSSMathSum(a, CSSMathSum(CSSMathProduct(b, c),
+                    #                             CSSMathNegate(d)))
+                    value = CSSMathSum(values.pop(), value)
             else:
-                node = CSSNumericValue._parse_numeric_value(
-                    css_text,
-                    arg,
-                    root_node=current_node)
-                current_node.values.append(node)
-
-        while True:
-            parent_node = current_node.parent
-            if (parent_node is None
-                    or (root_node is not None
-                        and parent_node is not None
-                        and parent_node == root_node)):
-                break
-            current_node = parent_node
-        return current_node
+                raise ValueError('Invalid math expression: ' + repr(css_text))
+            values.append(value)
+        return values[0] if len(values) == 1 else CSSMathSum(*values)
 
     @staticmethod
-    def _parse_numeric_value(css_text, token, root_node=None):
+    def _parse_math_product(css_text, tokens, negate=False):
+        value = CSSNumericValue._parse_math_value(css_text, tokens)
+        if negate:
+            # 'a - b * c'
+            # => CSSMathSum(a, CSSMathProduct(CSSMathNegate(b), c))
+            value = CSSMathNegate(value)
+        values = [value]
+        last_operator = None
+        while len(tokens) > 0 and tokens[0] in ('*', '/'):
+            operator = tokens.pop(0).value
+            value = CSSNumericValue._parse_math_value(css_text, tokens)
+            if operator == '/':
+                value = CSSMathInvert(value)
+            elif last_operator == '/':
+                # 'a / b * c'
+                # => CSSMathProduct(CSSMathProduct(a, CSSMathInvert(b)), c)
+                values = [CSSMathProduct(*values)]
+            values.append(value)
+            last_operator = operator
+        return values[0] if len(values) == 1 else CSSMathProduct(*values)
+
+    @staticmethod
+    def _parse_math_value(css_text, tokens):
+        if len(tokens) == 0:
+            raise ValueError('Invalid math expression: ' + repr(css_text))
+        token = tokens.pop(0)
+        if token == '-':
+            return CSSMathNegate(
+                CSSNumericValue._parse_math_value(css_text, tokens))
+        elif token.type == '() block':
+            return CSSNumericValue._parse_math_sum(css_text, token.content)
+        return CSSNumericValue._parse_numeric_value(css_text, token)
+
+    @staticmethod
+    def _parse_numeric_value(css_text, token):
         if token.type == 'number':
             # <number-token>
             return CSSUnitValue(token.value, UnitType.NUMBER)
@@ -1016,39 +936,9 @@ class CSSNumericValue(CSSStyleValue):
             return CSSUnitValue(token.value, token.unit)
         elif token.type == 'function':
             # 'math function'
-            return CSSNumericValue._parse_math_expression(
-                css_text,
-                token,
-                root_node=root_node)
+            return CSSNumericValue._parse_math_expression(css_text, token)
         raise ValueError('Invalid math expression: ' + repr(token))
 
-    @staticmethod
-    def _reify_math_expression(node):
-        if isinstance(node, CSSNumericValue):
-            return node
-        assert isinstance(node, _MathExpression)
-        operator = node.operator
-        if operator is None or operator == CSSMathOperator.SUM:
-            expression = CSSMathSum
-        elif operator == CSSMathOperator.CLAMP:
-            expression = CSSMathClamp
-        elif operator == CSSMathOperator.INVERT:
-            expression = CSSMathInvert
-        elif operator == CSSMathOperator.MAX:
-            expression = CSSMathMax
-        elif operator == CSSMathOperator.MIN:
-            expression = CSSMathMin
-        elif operator == CSSMathOperator.NEGATE:
-            expression = CSSMathNegate
-        elif operator == CSSMathOperator.PRODUCT:
-            expression = CSSMathProduct
-        else:
-            raise ValueError('Invalid math expression: ' + repr(operator))
-        args = list()
-        for arg in node.values:
-            args.append(CSSNumericValue._reify_math_expression(arg))
-        return expression(*args)
-
     def add(self, *values):
         values = CSSNumericValue.rectify_values(values)
         if isinstance(self, CSSMathSum):
@@ -1124,8 +1014,7 @@ class CSSNumericValue(CSSStyleValue):
         """
         token = tinycss2.parse_one_component_value(css_text,
                                                    skip_comments=True)
-        node = CSSNumericValue._parse_numeric_value(css_text, token)
-        value = CSSNumericValue._reify_math_expression(node)
+        value = CSSNumericValue._parse_numeric_value(css_text, token)
         value._css_text = css_text
         return value
 
-- 
2.43.0


From a25367e237336597ffa9e5548c1fb0a6190eaa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 67/98] fix: numeric values: inverting changed the operand's
 type, squares converted to lengths, nested text lost its parentheses, equal
 negations differed and changed values kept their text

---
 svgpy/css/types.py | 51 +++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 7a469c4..5a00b5b 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -326,7 +326,8 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
         final_type.update(type1)
         base_type_keys = {CSSNumericType.LENGTH, CSSNumericType.ANGLE,
                           CSSNumericType.TIME, CSSNumericType.FREQUENCY,
-                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX}
+                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX,
+                          CSSNumericType.PERCENT}
         for key in set(type2) & base_type_keys:
             power = type2[key]
             if key in final_type:
@@ -980,6 +981,18 @@ class CSSNumericValue(CSSStyleValue):
                 for value1, value2 in zip(self.values, item.values):
                     if not value1.equals(value2):
                         return False
+            elif ((isinstance(self, CSSMathNegate)
+                   and isinstance(item, CSSMathNegate))
+                  or (isinstance(self, CSSMathInvert)
+                      and isinstance(item, CSSMathInvert))):
+                if not self.value.equals(item.value):
+                    return False
+            elif (isinstance(self, CSSMathClamp)
+                  and isinstance(item, CSSMathClamp)):
+                if not (self.min.equals(item.min)
+                        and self.val.equals(item.val)
+                        and self.max.equals(item.max)):
+                    return False
             else:
                 return False
         return True
@@ -1040,15 +1053,7 @@ class CSSNumericValue(CSSStyleValue):
         sum_value = self.create_sum_value()
         if sum_value is None or len(sum_value) != 1:
             raise ValueError('Cannot convert to ' + repr(unit))
-        value, unit_map = sum_value[0]
-        units = [unit for unit, power in unit_map.items() if power != 0]
-        unit_map_length = len(units)
-        if unit_map_length == 0:
-            item = CSSUnitValue(value, UnitType.NUMBER)
-        elif unit_map_length > 1:
-            raise ValueError('Incompatible types')
-        else:
-            item = CSSUnitValue(value, units[0])
+        item = CSSUnitValue.create_from_sum_value_item(sum_value[0])
         if item.unit == unit.lower():
             return item
         return item.to(unit)
@@ -1056,7 +1061,10 @@ class CSSNumericValue(CSSStyleValue):
     def to_sum(self, *units):
         for unit in units:
             _ = CSSNumericType.create_type(unit)
+        units = [unit.lower() for unit in units]
         sum_value = self.create_sum_value()
+        if sum_value is None:
+            raise ValueError('Cannot convert to ' + repr(units))
         values = list()
         for item in sum_value:
             values.append(CSSUnitValue.create_from_sum_value_item(item))
@@ -1152,9 +1160,10 @@ class CSSMathInvert(CSSMathValue):
         super().__init__()
         values = CSSNumericValue.rectify_values([arg])
         self._value = values[0]
-        self._type = self._value.type()
+        self._type = self._value.type().copy()
         for key in list(self._type):
-            self._type[key] *= -1
+            if key != CSSNumericType.PERCENT_HINT:
+                self._type[key] *= -1
 
     @property
     def operator(self):
@@ -1182,6 +1191,8 @@ class CSSMathInvert(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
+        kwargs['nested'] = True
+        kwargs['paren_less'] = False
         s += '1 / ' + self._value.tostring(**kwargs)
         if not paren_less:
             s += ')'
@@ -1330,8 +1341,14 @@ class CSSMathNegate(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
-        s += '-'
-        s += self._value.tostring(**kwargs)
+        kwargs['nested'] = True
+        kwargs['paren_less'] = False
+        value = self._value.tostring(**kwargs)
+        if value[0] == '(' or value[0] == '.' or value[0].isdigit():
+            s += '-' + value
+        else:
+            # '--' and '-calc(' are not operators
+            s += '-(' + value + ')'
         if not paren_less:
             s += ')'
         return s
@@ -1393,6 +1410,7 @@ class CSSMathProduct(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathInvert):
@@ -1440,9 +1458,8 @@ class CSSMathSum(CSSMathValue):
             if value is None:
                 return None
             for sub_value, sub_unit_map in value:
-                sub_unit_map_keys = sorted(sub_unit_map.keys())
                 found = [i for i, (value, unit_map) in enumerate(values)
-                         if sorted(unit_map.keys()) == sub_unit_map_keys]
+                         if unit_map == sub_unit_map]
                 if len(found) == 0:
                     values.append([sub_value, sub_unit_map])
                 else:
@@ -1473,6 +1490,7 @@ class CSSMathSum(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathNegate):
@@ -1579,6 +1597,7 @@ class CSSUnitValue(CSSNumericValue):
     @value.setter
     def value(self, value):
         self._value = Decimal(value)
+        self._css_text = None
 
     @staticmethod
     def create_from_sum_value_item(item):
-- 
2.43.0


From 927f01f4e2902a430be60974cf6a6aa7702ca1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 68/98] fix: to_sum of a numeric value failed depending on the
 order of the units

---
 svgpy/css/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 5a00b5b..7957f45 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1082,7 +1082,7 @@ class CSSNumericValue(CSSStyleValue):
                             and canonical_unit2 is not None
                             and canonical_unit1 == canonical_unit2)):
                     temp.value += value.to(unit).value
-                    values.remove(value)
+                    values = [x for x in values if x is not value]
                     break
             result.append(temp)
         if len(values) > 0:
-- 
2.43.0


From f6626de0dea86b6d330bb42d90e1cbc2608daca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 69/98] fix: typed style maps: 'in' was always true, refused
 values and shorthands were deleted or kept wrongly; references in blocks,
 strings and other case were misread; changed values kept their text; keywords
 were case-sensitive

---
 svgpy/css/props.py |  24 +++++----
 svgpy/css/types.py | 131 ++++++++++++++++++++++-----------------------
 2 files changed, 80 insertions(+), 75 deletions(-)

diff --git a/svgpy/css/props.py b/svgpy/css/props.py
index 3ee55fa..c1a69fb 100644
--- a/svgpy/css/props.py
+++ b/svgpy/css/props.py
@@ -135,6 +135,7 @@ class PropertyDescriptor(object):
                           and x.lower() not in (css_color_keyword_set
                                                 | css_wide_keyword_set))}
         self._identifiers = components
+        self._lower_identifiers = {x.lower() for x in components}
 
     @property
     def identifiers(self):
@@ -260,17 +261,19 @@ class PropertyDescriptor(object):
             # <ident-token> or <string-token>
             value = token.value
 
-            # CSS-wide keywords
-            if value.lower() in css_wide_keyword_set:
-                return True, None
+            if token.type == 'ident':
+                # CSS-wide keywords
+                if value.lower() in css_wide_keyword_set:
+                    return True, None
 
-            # <custom-ident> type
-            if value in self._identifiers:
-                return True, PropertySyntax.CUSTOM_IDENT
+                # <custom-ident> type
+                if value.lower() in self._lower_identifiers:
+                    return True, PropertySyntax.CUSTOM_IDENT
 
             # <color> type (<named-color> or 'currentcolor')
-            if (self._syntax_components[PropertySyntax.ANY]
-                    or self._syntax_components[PropertySyntax.COLOR]):
+            if (token.type == 'ident'
+                    and (self._syntax_components[PropertySyntax.ANY]
+                         or self._syntax_components[PropertySyntax.COLOR])):
                 if value.lower() == 'currentcolor':
                     return True, PropertySyntax.CUSTOM_IDENT
 
@@ -343,12 +346,15 @@ class PropertyDescriptor(object):
             return False, None
         elif token.type == 'error':
             raise ValueError('Cannot parse for property: ' + repr(token))
-        raise NotImplementedError(token)
+        # blocks, at-keywords and others
+        return False, None
 
     def supports(self, css_text):
         tokens = tinycss2.parse_component_value_list(css_text,
                                                      skip_comments=True)
         tokens = [token for token in tokens if token.type != 'whitespace']
+        if len(tokens) == 0 or any(x.type == 'error' for x in tokens):
+            return False
         css_wide_keywords = 0
         for token in tokens:
             if token.type == 'literal' and token.value == ',':
diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 7957f45..24d4648 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -34,8 +34,6 @@ _RE_REAL_NUMBER = re.compile(r'[+-]?[0-9]*\.?[0-9]+(e[+-]?[0-9]+)?',
 
 _RE_URL_FUNCTION = re.compile(r'^url\((?P<value>[^)]+)\)$')
 
-_RE_VAR_FUNCTION = re.compile(r'(^|\s|\t|\*|/|\(|,)var\(')
-
 list_valued_properties = [
     'animation', 'animation-delay', 'animation-direction',
     'animation-duration', 'animation-fill-mode', 'animation-iteration-count',
@@ -498,9 +496,8 @@ class CSSStyleValue(object):
 
         css_wide_keywords = 0
         reified_values = list()
-        tokens = tinycss2.parse_component_value_list(css_text,
-                                                     skip_comments=True)
-        if (_RE_VAR_FUNCTION.search(css_text)
+        tokens = tinycss2.parse_component_value_list(css_text)
+        if (CSSStyleValue._has_variable_reference(tokens)
                 or (property_name.startswith('--')
                     and property_name not in context.registered_property_set)):
             # unregistered custom property or
@@ -518,7 +515,8 @@ class CSSStyleValue(object):
                     inherits=False)
 
             values = list()
-            tokens = [token for token in tokens if token.type != 'whitespace']
+            tokens = [token for token in tokens
+                      if token.type not in ('comment', 'whitespace')]
             if property_name in single_multi_valued_properties:
                 # single multi-valued properties
                 syntax_set = list()
@@ -581,52 +579,58 @@ class CSSStyleValue(object):
 
         return reified_values
 
+    @staticmethod
+    def _has_variable_reference(tokens):
+        for token in tokens:
+            if token.type == 'function':
+                if (token.lower_name == 'var'
+                        or CSSStyleValue._has_variable_reference(
+                            token.arguments)):
+                    return True
+            elif (token.type.endswith(' block')
+                  and CSSStyleValue._has_variable_reference(token.content)):
+                return True
+        return False
+
     @staticmethod
     def _reify_component_values(tokens):
         members = list()
-        single_string = ''
+
+        def append(*values):
+            for value in values:
+                if (isinstance(value, str)
+                        and len(members) > 0
+                        and isinstance(members[-1], str)):
+                    members[-1] += value
+                else:
+                    members.append(value)
+
         for token in tokens:
-            if token.type == 'function':
-                if token.lower_name == 'var':
-                    if len(single_string) > 0:
-                        members.append(single_string)
-                        single_string = ''
-                    variable = ''
-                    args = list(token.arguments)
-                    while len(args) > 0:
-                        arg = args.pop(0)
-                        if arg.type == 'literal' and arg.value == ',':
-                            break
-                        variable += tinycss2.serialize([arg])
-                    variable = variable.strip()
-                    if len(args) == 0:
-                        fallback = None
-                    else:
+            if token.type == 'function' and token.lower_name == 'var':
+                variable = ''
+                fallback = None
+                args = list(token.arguments)
+                while len(args) > 0:
+                    arg = args.pop(0)
+                    if arg.type == 'literal' and arg.value == ',':
                         fallback = CSSStyleValue._reify_component_values(args)
-                    unparsed_value = CSSVariableReferenceValue(variable,
-                                                               fallback)
-                    members.append(unparsed_value)
-                else:
-                    single_string += token.name + '('
-                    unparsed_value = CSSStyleValue._reify_component_values(
-                        token.arguments)
-                    if (len(unparsed_value) > 0
-                            and isinstance(unparsed_value[0], str)):
-                        single_string += unparsed_value.pop(0)
-                    members.append(single_string)
-                    single_string = ''
-                    if (len(unparsed_value) > 0
-                            and isinstance(unparsed_value[-1], str)):
-                        single_string = unparsed_value.pop(-1)
-                    members.extend(unparsed_value)
-                    single_string += ')'
+                        break
+                    elif arg.type != 'comment':
+                        variable += tinycss2.serialize([arg])
+                append(CSSVariableReferenceValue(variable.strip(), fallback))
+            elif token.type == 'function':
+                append(tinycss2.serialize_identifier(token.name) + '(')
+                append(*CSSStyleValue._reify_component_values(
+                    token.arguments))
+                append(')')
+            elif token.type.endswith(' block'):
+                append(token.type[0])
+                append(*CSSStyleValue._reify_component_values(token.content))
+                append(token.type[1])
             else:
-                single_string += tinycss2.serialize([token])
+                append(tinycss2.serialize([token]))
 
-        if len(single_string) > 0:
-            members.append(single_string)
-        unparsed_value = CSSUnparsedValue(members)
-        return unparsed_value
+        return CSSUnparsedValue(members)
 
     @staticmethod
     def _reify_css_style_value(property_name, components):
@@ -831,6 +835,7 @@ class CSSKeywordValue(CSSStyleValue):
         if value is None or len(value) == 0:
             raise ValueError('Expected non-empty string')
         self._value = value
+        self._css_text = None
 
 
 class CSSNumericValue(CSSStyleValue):
@@ -1679,6 +1684,7 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
 
     def __delitem__(self, index):
         del self._tokens[index]
+        self._css_text = None
 
     def __getitem__(self, index):
         return self._tokens[index]
@@ -1699,10 +1705,8 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
                 raise TypeError("Expected str or CSSVariableReferenceValue,"
                                 " got " + repr(type(item)))
 
-        if isinstance(index, int):
-            self._tokens.insert(index, value)
-        else:
-            self._tokens[index] = value
+        self._tokens[index] = value
+        self._css_text = None
 
     @property
     def length(self):
@@ -1710,16 +1714,13 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
         return len(self)
 
     def insert(self, index, value):
-        self[index] = value
+        self[index:index] = [value]
 
     def tostring(self, **kwargs):
-        if self._css_text is not None:
-            return self._css_text
         s = list()
         for token in self._tokens:
             if isinstance(token, CSSVariableReferenceValue):
                 token = token.tostring(**kwargs)
-            print(repr(token))
             s.append(token)
         return ''.join(s)
 
@@ -1796,6 +1797,9 @@ class StylePropertyMapReadOnly(Mapping):
         """
         self._declarations = declaration  # type: dict
 
+    def __contains__(self, property_name):
+        return self.has(property_name)
+
     def __getitem__(self, property_name):
         return self.get_all(property_name)
 
@@ -1820,11 +1824,10 @@ class StylePropertyMapReadOnly(Mapping):
         if not property_name.startswith('--'):
             property_name = property_name.lower()
 
-        props = self._declarations
-        if property_name not in props:
+        css_text = self._declarations.get(property_name, '')
+        if len(css_text) == 0:
             return []
 
-        css_text = props[property_name]
         values = CSSStyleValue.parse_all(property_name, css_text)
         return values
 
@@ -1832,8 +1835,7 @@ class StylePropertyMapReadOnly(Mapping):
         if not property_name.startswith('--'):
             property_name = property_name.lower()
 
-        props = self._declarations
-        return property_name in props
+        return len(self._declarations.get(property_name, '')) > 0
 
     def keys(self):
         return self._declarations.keys()
@@ -1856,9 +1858,8 @@ class StylePropertyMap(StylePropertyMapReadOnly, MutableMapping):
         if not property_name.startswith('--'):
             property_name = property_name.lower()
 
-        props = self._declarations
-        if property_name in props:
-            del props[property_name]
+        if self.has(property_name):
+            del self._declarations[property_name]
 
     def set(self, property_name, *values):
         if not property_name.startswith('--'):
@@ -1884,10 +1885,6 @@ class StylePropertyMap(StylePropertyMapReadOnly, MutableMapping):
             raise TypeError('Invalid type for property: '
                             + repr(property_name))
 
-        props = self._declarations
-        if property_name in props:
-            del props[property_name]
-
         values_to_set = list()
         for value in values:
             # TODO: create an underlying value.
@@ -1897,4 +1894,6 @@ class StylePropertyMap(StylePropertyMapReadOnly, MutableMapping):
                 values_to_set.append(value.tostring())
 
         delimiter = ', ' if property_name in list_valued_properties else ' '
-        props[property_name] = delimiter.join(values_to_set)
+        self._declarations.set_property(property_name,
+                                        delimiter.join(values_to_set),
+                                        '')
-- 
2.43.0


From 5ae76dc3b9693ebb2d364cec99179d25cc358cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 70/98] fix: text content: comments and empty tspans failed,
 character data after other elements was lost, spaces were added or dropped at
 element boundaries, tspans gave their first piece or the whole text, and
 position lists were shared between elements

---
 svgpy/core.py |  21 ++--
 svgpy/text.py | 318 ++++++++++++++++++++------------------------------
 2 files changed, 135 insertions(+), 204 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index f9cfc8f..d9fc175 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -84,8 +84,8 @@ class CSSUtils(object):
         re.DOTALL)
     _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}', re.MULTILINE)
     _RE_SEGMENT_BREAKS = re.compile(r'(\r\n|\r|\n)+', re.MULTILINE)
-    _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'^(\x20|\t)+', re.MULTILINE)
-    _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+$', re.MULTILINE)
+    _RE_SEGMENT_BREAK_WHITESPACE = re.compile(
+        r'[\x20\t]*([\r\n])[\x20\t]*')
 
     @staticmethod
     def compute_font_size(element, inherited=None):
@@ -288,22 +288,19 @@ class CSSUtils(object):
 
         # FIXME: fix white-space processing.
         if white_space in ['normal', 'nowrap', 'pre-line']:
-            out_text = CSSUtils._RE_PRECEDING_TAB_WHITESPACE.sub(
-                '', out_text)
-            out_text = CSSUtils._RE_FOLLOWING_TAB_WHITESPACE.sub(
-                '', out_text)
+            # remove collapsible spaces and tabs around segment breaks
+            out_text = CSSUtils._RE_SEGMENT_BREAK_WHITESPACE.sub(
+                r'\1', out_text)
             out_text = _transform_segment_break(out_text, style)
             out_text = out_text.replace('\t', ' ')
             out_text = CSSUtils._RE_COLLAPSIBLE_WHITESPACE.sub(
                 ' ', out_text)
-        if white_space in ['pre', 'pre-wrap']:
+            if prev_text is not None and prev_text.endswith(' '):
+                out_text = out_text.lstrip(' ')
+        else:
             out_text = _transform_segment_break(out_text, style)
+            return out_text
 
-        if prev_text is not None:
-            if prev_text.endswith(' ') and out_text.startswith(' '):
-                out_text = out_text.lstrip()
-            elif not prev_text.endswith(' ') and not out_text.startswith(' '):
-                out_text = ' ' + out_text
         if first:
             out_text = out_text.lstrip(' ')
         # if len(element) == 0:
diff --git a/svgpy/text.py b/svgpy/text.py
index 5ef6935..f080335 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -39,14 +39,18 @@ class SVGTextContentElement(SVGGraphicsElement):
     _CHARS_BBOX = 5
     _CHARS_ELEMENT = 6
 
-    def _get_chars_info(self):
+    def _get_chars_info(self, is_render=True):
         root = self.get_nearest_text_element()
         if root is None:
             return []
 
         chars_info = SVGTextContentElement._get_descendant_chars_info(
-            root, first=True, is_display=True, is_render=True)
-        return chars_info
+            root, first=True, is_display=True, is_render=is_render)
+        if root is self:
+            return chars_info
+        elements = set(self.iter())
+        return [x for x in chars_info
+                if x[SVGTextContentElement._CHARS_ELEMENT] in elements]
 
     @staticmethod
     def _get_descendant_chars(element, style_map=None,
@@ -79,56 +83,37 @@ class SVGTextContentElement(SVGGraphicsElement):
         if style_map is None:
             style_map = dict()
         key = hash(element)
-        style = style_map.get(key)
+        style = style_map.get(element)
         if style is None:
             style = element.get_computed_style()
-            style_map[key] = copy.deepcopy(style)
+            style_map[element] = copy.deepcopy(style)
+        collapsible = style['white-space'] in ['normal', 'nowrap', 'pre-line']
+
+        def _append(_text):
+            _out_text = CSSUtils.normalize_text_content(
+                element, _text, style, prev_text, first)
+            if len(_out_text) == 0:
+                return prev_text, first
+            chars_info.append([key, _out_text, style, [], [], None, element])
+            # a preserved space does not collapse with the following one
+            return _out_text if collapsible else '', False
+
         if element.text is not None:
-            out_text = CSSUtils.normalize_text_content(
-                element,
-                element.text,
-                style,
-                prev_text,
-                first)
-            if len(out_text) > 0:
-                path_data = []
-                advance_list = []
-                bbox = None
-                chars_info.append(
-                    [key, out_text, style, path_data, advance_list, bbox,
-                     element])
-                prev_text = out_text
-                first = False
+            prev_text, first = _append(element.text)
 
         for child in iter(element):
             if (child.node_type == Node.ELEMENT_NODE
                     and child.istext()
                     and (not is_display
                          or (is_display and child.isdisplay()))):
-                child_chars_info, out_text = \
+                child_chars_info, prev_text = \
                     SVGTextContentElement._get_descendant_chars(
                         child, style_map, prev_text, first, **kwargs)
-                if len(out_text) > 0:
+                if len(child_chars_info) > 0:
                     chars_info += child_chars_info
-                    prev_text = out_text
-                    first = False
-            if (child.local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS
-                    and child.tail is not None):
-                out_text = CSSUtils.normalize_text_content(
-                    child,
-                    child.tail,
-                    style,
-                    prev_text,
-                    first)
-                if len(out_text) > 0:
-                    path_data = []
-                    advance_list = []
-                    bbox = None
-                    chars_info.append(
-                        [key, out_text, style, path_data, advance_list, bbox,
-                         element])
-                    prev_text = out_text
                     first = False
+            if child.tail is not None:
+                prev_text, first = _append(child.tail)
         return chars_info, prev_text
 
     @staticmethod
@@ -154,36 +139,26 @@ class SVGTextContentElement(SVGGraphicsElement):
             root, first=first, **kwargs)
         if len(chars_info) > 0:
             item = chars_info[-1]
-            text = item[SVGTextContentElement._CHARS_TEXT].rstrip()
-            item[SVGTextContentElement._CHARS_TEXT] = text
+            style = item[SVGTextContentElement._CHARS_STYLE]
+            if style['white-space'] in ['normal', 'nowrap', 'pre-line']:
+                text = item[SVGTextContentElement._CHARS_TEXT].rstrip(' ')
+                item[SVGTextContentElement._CHARS_TEXT] = text
 
             is_render = kwargs.get('is_render', False)
             if is_render:
-                style = chars_info[0][SVGTextContentElement._CHARS_STYLE]
-                x_list = style['x']
-                if x_list is None:
-                    x = 0
-                else:
-                    x = x_list[0]
-                y_list = style['y']
-                if y_list is None:
-                    y = 0
-                else:
-                    y = y_list[0]
-
-                style_map = dict()
-                for info in iter(chars_info):
-                    key = info[SVGTextContentElement._CHARS_ID]
-                    style = info[SVGTextContentElement._CHARS_STYLE]
-                    style_map[key] = copy.deepcopy(style)
-
+                x = y = 0
+                counts = dict()
                 for info in iter(chars_info):
+                    positions = SVGTextContentElement._get_positions(
+                        info[SVGTextContentElement._CHARS_ELEMENT],
+                        len(info[SVGTextContentElement._CHARS_TEXT]),
+                        counts)
                     path_data, advance_list, bbox, (x, y) = \
                         SVGTextContentElement._get_text_path_data(
                             info[SVGTextContentElement._CHARS_ELEMENT],
-                            style_map,
+                            info[SVGTextContentElement._CHARS_STYLE],
                             info[SVGTextContentElement._CHARS_TEXT],
-                            x, y)
+                            x, y, positions)
                     info[SVGTextContentElement._CHARS_PATH_DATA] = path_data
                     info[SVGTextContentElement._CHARS_ADVANCE_LIST] = \
                         advance_list
@@ -192,15 +167,60 @@ class SVGTextContentElement(SVGGraphicsElement):
         return chars_info
 
     @staticmethod
-    def _get_text_path_data(element, style_map, out_text, start_x, start_y):
+    def _get_positions(element, length, counts):
+        """Returns the values of the 'x', 'y', 'dx', 'dy' and 'rotate'
+        attributes which apply to the next characters of the element. A value
+        of the nearest element which has a value for the character is used.
+
+        Arguments:
+            element (SVGElement):
+            length (int): The number of characters.
+            counts (dict): The number of characters and rotated characters so
+                far of each element and its geometry.
+        Returns:
+            list[dict]:
+        """
+        ancestors = list()
+        while element is not None:
+            if element.node_type == Node.ELEMENT_NODE and element.istext():
+                if element not in counts:
+                    counts[element] = [0, 0, element.get_computed_geometry()]
+                ancestors.append(counts[element])
+                if element.local_name == 'text':
+                    break
+            element = element.getparent()
+
+        positions = list()
+        for _ in range(length):
+            position = dict()
+            for item in ancestors:
+                index, rotate_index, geometry = item
+                for key, values in geometry.items():
+                    if key in position or not values:
+                        continue
+                    elif key == 'rotate':
+                        position[key] = values[min(rotate_index,
+                                                   len(values) - 1)]
+                        item[1] = rotate_index + 1
+                    elif index < len(values):
+                        position[key] = values[index]
+                item[0] = index + 1
+            positions.append(position)
+        return positions
+
+    @staticmethod
+    def _get_text_path_data(element, style, out_text, start_x, start_y,
+                            text_positions):
         """Returns the addressable characters.
 
         Arguments:
             element (SVGElement):
-            style_map (dict):
+            style (dict): The computed style of the element.
             out_text (str): A text for rendering.
             start_x (float):
             start_y (float):
+            text_positions (list[dict]): The values of the 'x', 'y', 'dx', 'dy'
+                and 'rotate' attributes for each character.
         Returns:
             list[SVGPathSegment]:
             list[float]:
@@ -208,32 +228,7 @@ class SVGTextContentElement(SVGGraphicsElement):
             tuple[float, float]:
         """
 
-        def _get_inherited_attribute(_element, _style_map, _key,
-                                     _default=None):
-            while _element is not None:
-                if (_element.node_type == Node.ELEMENT_NODE
-                        and _element.istext()
-                        and _element.isdisplay()):
-                    _style = _style_map.get(hash(_element))
-                    if _style is None:
-                        _style = _element.get_computed_style()
-                        _style_map[hash(_element)] = _style
-                    _value = _style.get(_key)
-                    if _value is not None:
-                        return _value
-                _element = _element.getparent()
-            return _default
-
         # TODO: support line-breaking and word-breaking.
-        x_list = _get_inherited_attribute(element, style_map, 'x', [])
-        y_list = _get_inherited_attribute(element, style_map, 'y', [])
-        dx_list = _get_inherited_attribute(element, style_map, 'dx', [])
-        dy_list = _get_inherited_attribute(element, style_map, 'dy', [])
-        rotate_list = _get_inherited_attribute(
-            element, style_map, 'rotate', [])
-
-        style = style_map.get(hash(element))  # computed style
-        assert style is not None
         font = Font(element)
         face = font.face
         hb_font = HBFTFont.create(face)
@@ -333,18 +328,24 @@ class SVGTextContentElement(SVGGraphicsElement):
                       else UBiDi.UBIDI_DEFAULT_RTL)
         max_limit = para.get_processed_length()
         bi = UBreakIterator(UBreakIterator.UBRK_LINE, locale.locale)
+        source = out_text.encode('utf-16-le', 'surrogatepass')
         logical_start = 0
+        text_start = 0
         while logical_start < max_limit:
             limit, para_level = para.get_logical_run(logical_start)
             para_level &= 1
-            paragraph = out_text[logical_start:limit]
+            # positions in the ICU are counted in the UTF-16 code units
+            paragraph = source[logical_start * 2:limit * 2].decode(
+                'utf-16-le', 'surrogatepass')
             bi.set_text(paragraph)
+            lines = list()
+            for line in bi:
+                lines.append((text_start, line))
+                text_start += len(line)
             if ((not ltr and para_level == UBiDi.UBIDI_LTR)
                     or (ltr and para_level == UBiDi.UBIDI_RTL)):
-                iterable = reversed(bi)
-            else:
-                iterable = bi
-            for line in iterable:
+                lines.reverse()
+            for line_start, line in lines:
                 buf.clear_contents()
                 buf.set_language(hb_language)
                 buf.set_script(hb_script)
@@ -357,69 +358,29 @@ class SVGTextContentElement(SVGGraphicsElement):
                     infos = list(reversed(infos))
                     positions = list(reversed(positions))
 
-                # re-positioning
-                if len(infos) != len(line):
-                    clusters = [x.cluster for x in infos]
-                    cluster_min = min(clusters)
-                    cluster_max = max(clusters)
-                    cluster_inc = max(
-                        (cluster_max - cluster_min) // len(clusters), 1)
-                    # try to find ligatures
-                    last_cluster = None
-                    for offset, cluster in enumerate(clusters):
-                        if last_cluster is None:
-                            pass
-                        elif last_cluster == cluster:
-                            pass  # decompose
-                        elif last_cluster + cluster_inc == cluster:
-                            pass  # do nothing
-                        else:
-                            # ligature
-                            index = logical_start + offset
-                            if index < len(x_list):
-                                _ = x_list.pop(index)
-                            if index < len(y_list):
-                                _ = y_list.pop(index)
-                            dx_length = len(dx_list)
-                            if index < dx_length:
-                                dx = dx_list.pop(index)
-                                if index < dx_length - 1:
-                                    dx_list[index] += dx
-                            dy_length = len(dy_list)
-                            if index < dy_length:
-                                dy = dy_list.pop(index)
-                                if index < dy_length - 1:
-                                    dy_list[index] += dy
-                            rotate_length = len(rotate_list)
-                            if rotate_length > 1 and index < rotate_length:
-                                _ = rotate_list.pop(index)
-                        last_cluster = cluster
-
                 # render line
                 line_path_data = list()
                 line_bbox = DOMRect()
+                line_bytes = line.encode('utf-8')
+                next_index = line_start
                 for info, position in zip(infos, positions):
-                    if len(x_list) > 0:
-                        x = x_list.pop(0)
-                    else:
-                        x = current_x
-                    if len(y_list) > 0:
-                        y = y_list.pop(0)
-                    else:
-                        y = current_y
-                    if len(dx_list) > 0:
-                        dx = dx_list.pop(0)
-                    else:
-                        dx = 0
-                    if len(dy_list) > 0:
-                        dy = dy_list.pop(0)
-                    else:
-                        dy = 0
-                    rotate_length = len(rotate_list)
-                    if rotate_length == 1:
-                        rotate = rotate_list[0]
-                    elif rotate_length > 1:
-                        rotate = rotate_list.pop(0)
+                    # clusters are counted in bytes
+                    index = line_start + len(
+                        line_bytes[:info.cluster].decode('utf-8'))
+                    x = current_x
+                    y = current_y
+                    dx = dy = 0
+                    if index >= next_index:
+                        # first glyph of a cluster
+                        for it in text_positions[next_index:index + 1]:
+                            # includes the rest of a ligature
+                            dx += it.get('dx', 0)
+                            dy += it.get('dy', 0)
+                        it = text_positions[index]
+                        x = it.get('x', x)
+                        y = it.get('y', y)
+                        rotate = it.get('rotate', 0)
+                        next_index = index + 1
 
                     x_offset = position.x_offset / 64
                     y_offset = position.y_offset / 64
@@ -539,7 +500,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_x)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_x.strip())
             ]
         geometry['x'] = x
 
@@ -556,7 +517,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_VERTICAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_y)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_y.strip())
             ]
         geometry['y'] = y
 
@@ -571,7 +532,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dx)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dx.strip())
             ]
         geometry['dx'] = dx
 
@@ -586,7 +547,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_VERTICAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dy)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dy.strip())
             ]
         geometry['dy'] = dy
 
@@ -599,7 +560,7 @@ class SVGTextContentElement(SVGGraphicsElement):
         else:
             rotate = [
                 float(t) for t in
-                Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_rotate)
+                Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_rotate.strip())
             ]
         geometry['rotate'] = rotate
 
@@ -619,21 +580,11 @@ class SVGTextContentElement(SVGGraphicsElement):
         if root is None:
             return None
 
-        chars_info = SVGTextContentElement._get_descendant_chars_info(
-            root, first=True, is_display=True)
-        local_name = self.local_name
-        if local_name == 'text':
-            out = ''.join([x[SVGTextContentElement._CHARS_TEXT]
-                           for x in chars_info])
-            return out
-        elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
-            out = [x[SVGTextContentElement._CHARS_TEXT]
-                   for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
-            if len(out) == 0:
-                return None
-            return out[0]
-        return None
+        out = [x[SVGTextContentElement._CHARS_TEXT]
+               for x in self._get_chars_info(is_render=False)]
+        if root is not self and len(out) == 0:
+            return None
+        return ''.join(out)
 
     def get_nearest_text_element(self):
         element = self
@@ -682,26 +633,9 @@ class SVGTextContentElement(SVGGraphicsElement):
         return path_data
 
     def get_sub_string_length(self, char_num=0, nchars=-1):
-        root = self.get_nearest_text_element()
-        if root is None:
-            return 0
-
-        chars_info = SVGTextContentElement._get_descendant_chars_info(
-            root, first=True, is_display=True, is_render=True)
-        local_name = self.local_name
         advance_list = list()
-        if local_name == 'text':
-            for item in iter(chars_info):
-                advance_list += item[SVGTextContentElement._CHARS_ADVANCE_LIST]
-        elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
-            out = [x[SVGTextContentElement._CHARS_ADVANCE_LIST]
-                   for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
-            if len(out) == 0:
-                return 0
-            advance_list = out[0]
-        else:
-            raise NotImplementedError
+        for item in self._get_chars_info():
+            advance_list += item[SVGTextContentElement._CHARS_ADVANCE_LIST]
 
         if nchars == -1:
             last = len(advance_list)
-- 
2.43.0


From 0383f4e02047be5a170dfed3e0e8f7e2831327a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 71/98] fix: comments and processing instructions beside the
 document element had no owner document, and the namespace URI of an element
 without one was an empty string

---
 svgpy/dom.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index b0eddb2..2a424e5 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -630,6 +630,12 @@ class Node(ABC):
             if parent is None:
                 break
             current = parent
+        if isinstance(current, CharacterData):
+            # the document is that of the document element next to the node
+            for preceding in (True, False):
+                for node in current.itersiblings(preceding=preceding):
+                    if node._owner_document is not None:
+                        return node._owner_document
         return None
 
     @property
@@ -1462,7 +1468,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
     @property
     def namespace_uri(self):
-        return self.nsmap.get(self.prefix)
+        # an empty string removes the default namespace
+        return self.nsmap.get(self.prefix) or None
 
     @property
     def next_element_sibling(self):
-- 
2.43.0


From 82227137fde77fa8a61bf386bfc50974e97f0547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 72/98] fix: FontConfig.match() destroyed the matched pattern
 twice, and crashed without a match

---
 svgpy/fontconfig.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/svgpy/fontconfig.py b/svgpy/fontconfig.py
index 1d30b4d..b4e8d73 100644
--- a/svgpy/fontconfig.py
+++ b/svgpy/fontconfig.py
@@ -245,9 +245,10 @@ class FontConfig(object):
         fs = ffi.gc(lib.FcFontSetCreate(),
                     lib.FcFontSetDestroy)
         result = ffi.new('FcResult *')
-        match = ffi.gc(lib.FcFontMatch(ffi.NULL, pat, result),
-                       lib.FcPatternDestroy)
-        lib.FcFontSetAdd(fs, match)
+        match = lib.FcFontMatch(ffi.NULL, pat, result)
+        if match == ffi.NULL:
+            return []
+        lib.FcFontSetAdd(fs, match)  # destroyed with the set
         font_sequence = list()
         for i in range(0, fs.nfont):
             font = ffi.gc(lib.FcPatternFilter(fs.fonts[i], ffi.NULL),
-- 
2.43.0


From 0e5b9f77b8c7e2cbca190bd3cc00ca9c0fb3fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 73/98] fix: FreeType wrapper objects outlived the face and
 library they point into; null names, charmaps and bitmaps crashed; outline
 tags stopped at the first zero

---
 svgpy/freetype.py | 72 +++++++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 27 deletions(-)

diff --git a/svgpy/freetype.py b/svgpy/freetype.py
index aa9fdf4..c444462 100644
--- a/svgpy/freetype.py
+++ b/svgpy/freetype.py
@@ -44,8 +44,9 @@ def ft_tag_to_string(tag):
 class FTBitmap(object):
     """Represents the 'FT_Bitmap' data type."""
 
-    def __init__(self, ft_bitmap):
+    def __init__(self, ft_bitmap, owner=None):
         self._bitmap = ft_bitmap
+        self._owner = owner  # keep a reference
 
     def __repr__(self):
         return (
@@ -57,7 +58,9 @@ class FTBitmap(object):
     @property
     def buffer(self):
         # FIXME: FT_Bitmap.buffer should be aligned on 32-bit boundaries
-        length = self.pitch * self.rows
+        if self._bitmap.buffer == ffi.NULL:
+            return []  # no pixels
+        length = abs(self.pitch) * self.rows
         buf = ffi.unpack(self._bitmap.buffer, length)
         return buf
 
@@ -96,8 +99,9 @@ class FTBitmap(object):
 class FTBitmapSize(object):
     """Represents the 'FT_Bitmap_Size' data type."""
 
-    def __init__(self, ft_bitmap_size):
+    def __init__(self, ft_bitmap_size, owner=None):
         self._bitmap_size = ft_bitmap_size
+        self._owner = owner  # keep a reference
 
     def __repr__(self):
         return (
@@ -130,8 +134,9 @@ class FTBitmapSize(object):
 class FTCharMap(object):
     """Represents the 'FT_CharMap' data type."""
 
-    def __init__(self, ft_charmap):
+    def __init__(self, ft_charmap, owner=None):
         self._charmap = ft_charmap
+        self._owner = owner  # keep a reference
 
     def __repr__(self):
         return "('encoding': {}, 'encoding_id': {}, 'platform_id': {})".format(
@@ -163,9 +168,12 @@ class FTCharMap(object):
 class FTFace(object):
     """Represents the 'FT_Face' data type."""
 
-    def __init__(self, ft_face, reference=False, _memory_base=None):
+    def __init__(self, ft_face, reference=False, _memory_base=None,
+                 owner=None):
         self._face = ft_face
         self._memory_base = _memory_base  # keep a reference
+        self._library = FreeType.library  # keep a reference
+        self._owner = owner  # keep a reference
         if reference:
             self.reference_face()
 
@@ -180,7 +188,8 @@ class FTFace(object):
     def available_sizes(self):
         bitmap_sizes = list()
         for n in range(0, self.num_fixed_sizes):
-            bitmap_sizes.append(FTBitmapSize(self._face.available_sizes[n]))
+            bitmap_sizes.append(FTBitmapSize(self._face.available_sizes[n],
+                                             owner=self))
         return bitmap_sizes
 
     @property
@@ -194,14 +203,16 @@ class FTFace(object):
 
     @property
     def charmap(self):
-        charmap = FTCharMap(self._face.charmap)
+        if self._face.charmap == ffi.NULL:
+            return None
+        charmap = FTCharMap(self._face.charmap, owner=self)
         return charmap
 
     @property
     def charmaps(self):
         charmaps = list()
         for n in range(0, self.num_charmaps):
-            charmaps.append(FTCharMap(self._face.charmaps[n]))
+            charmaps.append(FTCharMap(self._face.charmaps[n], owner=self))
         return charmaps
 
     @property
@@ -218,6 +229,8 @@ class FTFace(object):
 
     @property
     def family_name(self):
+        if self._face.family_name == ffi.NULL:
+            return None
         family_name = ffi.string(self._face.family_name).decode()
         return family_name
 
@@ -227,7 +240,7 @@ class FTFace(object):
 
     @property
     def glyph(self):
-        glyph = FTGlyphSlot(self._face.glyph)
+        glyph = FTGlyphSlot(self._face.glyph, owner=self)
         return glyph
 
     @property
@@ -260,7 +273,7 @@ class FTFace(object):
 
     @property
     def size(self):
-        size = FTSize(self._face.size)
+        size = FTSize(self._face.size, owner=self)
         return size
 
     @property
@@ -269,6 +282,8 @@ class FTFace(object):
 
     @property
     def style_name(self):
+        if self._face.style_name == ffi.NULL:
+            return None
         style_name = ffi.string(self._face.style_name).decode()
         return style_name
 
@@ -439,8 +454,9 @@ class FTFace(object):
 class FTGlyphMetrics(object):
     """Represents the 'FT_Glyph_Metrics' data type."""
 
-    def __init__(self, ft_glyph_metrics):
+    def __init__(self, ft_glyph_metrics, owner=None):
         self._metrics = ft_glyph_metrics
+        self._owner = owner  # keep a reference
 
     def __repr__(self):
         return (
@@ -489,8 +505,9 @@ class FTGlyphMetrics(object):
 class FTGlyphSlot(object):
     """Represents the 'FT_GlyphSlot' data type."""
 
-    def __init__(self, ft_glyph_slot):
+    def __init__(self, ft_glyph_slot, owner=None):
         self._slot = ft_glyph_slot
+        self._owner = owner  # keep a reference
 
     def __repr__(self):
         return (
@@ -512,7 +529,7 @@ class FTGlyphSlot(object):
 
     @property
     def bitmap(self):
-        bitmap = FTBitmap(self._slot.bitmap)
+        bitmap = FTBitmap(self._slot.bitmap, owner=self)
         return bitmap
 
     @property
@@ -541,12 +558,12 @@ class FTGlyphSlot(object):
 
     @property
     def metrics(self):
-        metrics = FTGlyphMetrics(self._slot.metrics)
+        metrics = FTGlyphMetrics(self._slot.metrics, owner=self)
         return metrics
 
     @property
     def outline(self):
-        outline = FTOutline(self._slot.outline)
+        outline = FTOutline(self._slot.outline, owner=self)
         return outline
 
     @property
@@ -739,8 +756,9 @@ class FreeType(object):
 class FTOutline(object):
     """Represents the 'FT_Outline' data type."""
 
-    def __init__(self, ft_outline):
+    def __init__(self, ft_outline, owner=None):
         self._outline = ft_outline
+        self._owner = owner  # keep a reference
 
     def __repr__(self):
         return (
@@ -776,8 +794,10 @@ class FTOutline(object):
 
     @property
     def tags(self):
-        tags = ffi.string(self._outline.tags)
-        return list(tags)
+        if self.n_points == 0:
+            return []
+        tags = ffi.buffer(self._outline.tags, self.n_points)
+        return list(bytes(tags))
 
     def decompose(self, move_to_func, line_to_func, conic_to_func,
                   cubic_to_func, shift=0, delta=0, user=None):
@@ -830,9 +850,7 @@ class FTOutline(object):
 
     def get_cbox(self):
         bbox = ffi.new('FT_BBox *')
-        error = lib.FT_Outline_Get_CBox(ffi.addressof(self._outline), bbox)
-        if error:
-            raise RuntimeError('FT_Outline_Get_CBox() failed: ' + hex(error))
+        lib.FT_Outline_Get_CBox(ffi.addressof(self._outline), bbox)
         rect = DOMRect(bbox.xMin,
                        bbox.yMin,
                        bbox.xMax - bbox.xMin,
@@ -845,9 +863,7 @@ class FTOutline(object):
         return orientation
 
     def reverse(self):
-        error = lib.FT_Outline_Reverse(ffi.addressof(self._outline))
-        if error:
-            raise RuntimeError('FT_Outline_Reverse() failed: ' + hex(error))
+        lib.FT_Outline_Reverse(ffi.addressof(self._outline))
 
     def translate(self, x_offset, y_offset):
         lib.FT_Outline_Translate(ffi.addressof(self._outline),
@@ -862,23 +878,25 @@ class FTOutline(object):
 class FTSize(object):
     """Represents the 'FT_Size' data type."""
 
-    def __init__(self, ft_size):
+    def __init__(self, ft_size, owner=None):
         self._size = ft_size
+        self._owner = owner  # keep a reference
 
     def __repr__(self):
         return "('metrics': {})".format(repr(self.metrics))
 
     @property
     def metrics(self):
-        metrics = FTSizeMetrics(self._size.metrics)
+        metrics = FTSizeMetrics(self._size.metrics, owner=self)
         return metrics
 
 
 class FTSizeMetrics(object):
     """Represents the 'FT_Size_Metrics' data type."""
 
-    def __init__(self, ft_size_metrics):
+    def __init__(self, ft_size_metrics, owner=None):
         self._metrics = ft_size_metrics
+        self._owner = owner  # keep a reference
 
     def __repr__(self):
         return (
-- 
2.43.0


From f152dfb7d804426ccb650b0b4a57d24db3a466fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 74/98] fix: HarfBuzz wrapper objects outlived the data, blob
 and face they use; get_face() was destroyed twice; UTF-16/32 text began with
 a byte order mark

---
 svgpy/harfbuzz.py | 49 +++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/svgpy/harfbuzz.py b/svgpy/harfbuzz.py
index 51c7101..c92930e 100644
--- a/svgpy/harfbuzz.py
+++ b/svgpy/harfbuzz.py
@@ -14,6 +14,7 @@
 
 
 import array
+import sys
 
 from ._ffi_api import dlopen, ffi
 from .freetype import FTFace
@@ -94,13 +95,14 @@ class HBDirection(object):
 class HBFace(object):
     """Represents the 'hb_face_t' data type."""
 
-    def __init__(self, hb_face, reference=False):
+    def __init__(self, hb_face, reference=False, owner=None):
         """Constructs a HBFace object.
 
         Arguments:
             hb_face (cdata): A pointer of C type <cdata 'hb_face_t *'>.
         """
         self._face = hb_face
+        self._owner = owner  # keep a reference
         if reference:
             self.reference()
 
@@ -121,7 +123,7 @@ class HBFace(object):
             HBFace: A new HBFace object.
         """
         face = lib.hb_face_create(blob.hb_blob, index)
-        return HBFace(face)
+        return HBFace(face, owner=blob)
 
     def get_glyph_count(self):
         glyph_count = lib.hb_face_get_glyph_count(self._face)
@@ -139,7 +141,8 @@ class HBFace(object):
         lib.hb_face_reference(self._face)
 
     def reference_blob(self):
-        lib.hb_face_reference_blob(self._face)
+        blob = lib.hb_face_reference_blob(self._face)
+        return HBBlob(blob, owner=self)
 
     def set_glyph_count(self, glyph_count):
         lib.hb_face_set_glyph_count(self._face, glyph_count)
@@ -163,7 +166,7 @@ class HBFTFace(HBFace):
             HBFTFace: A new HBFTFace object.
         """
         hb_face = lib.hb_ft_face_create(face.ft_face, ffi.NULL)
-        return HBFTFace(hb_face)
+        return HBFTFace(hb_face, owner=face)
 
 
 class HBFeature(object):
@@ -221,8 +224,9 @@ class HBFeature(object):
     @staticmethod
     def fromstring(string):
         feature = ffi.new('hb_feature_t *')
-        result = lib.hb_feature_from_string(string.encode(),
-                                            len(string),
+        data = string.encode()
+        result = lib.hb_feature_from_string(data,
+                                            len(data),
                                             feature)
         if result == 0:
             return None
@@ -240,13 +244,14 @@ class HBFeature(object):
 class HBFont(object):
     """Represents the 'hb_font_t' data type."""
 
-    def __init__(self, hb_font, reference=False):
+    def __init__(self, hb_font, reference=False, owner=None):
         """Constructs a HBFont object.
 
         Arguments:
             hb_font (cdata): A pointer of C type <cdata 'hb_font_t *'>.
         """
         self._font = hb_font
+        self._owner = owner  # keep a reference
         if reference:
             self.reference()
 
@@ -268,11 +273,11 @@ class HBFont(object):
             HBFont: A new HBFont object.
         """
         font = lib.hb_font_create(face.hb_face)
-        return HBFont(font)
+        return HBFont(font, owner=face)
 
     def get_face(self):
         face = lib.hb_font_get_face(self._font)
-        return HBFace(face)
+        return HBFace(face, reference=True, owner=self._owner)
 
     def get_glyph(self, unicode, variation_selector=0):
         glyph = ffi.new('hb_codepoint_t *')
@@ -317,6 +322,7 @@ class HBFont(object):
 
     def set_face(self, face):
         lib.hb_font_set_face(self._font, face.hb_face)
+        self._owner = face
 
 
 class HBFTFont(HBFont):
@@ -331,11 +337,11 @@ class HBFTFont(HBFont):
             HBFTFont: A new HBFTFont object.
         """
         hb_font = lib.hb_ft_font_create(face.ft_face, ffi.NULL)
-        return HBFTFont(hb_font)
+        return HBFTFont(hb_font, owner=face)
 
     def get_face(self):
         face = lib.hb_ft_font_get_face(self._font)
-        return FTFace(face, reference=True)
+        return FTFace(face, reference=True, owner=self._owner)
 
     def get_load_flags(self):
         load_flags = lib.hb_ft_font_get_load_flags(self._font)
@@ -372,6 +378,8 @@ class HBLanguage(object):
 
     def tostring(self):
         string = lib.hb_language_to_string(self.language)
+        if string == ffi.NULL:
+            return None
         return ffi.string(string).decode()
 
 
@@ -390,13 +398,14 @@ class HBBlob(object):
     HB_MEMORY_MODE_WRITABLE = 3
     HB_MEMORY_MODE_READONLY_MAY_MAKE_WRITABLE = 4
 
-    def __init__(self, hb_blob, reference=False):
+    def __init__(self, hb_blob, reference=False, owner=None):
         """Constructs a HBBlob object.
 
         Arguments:
             hb_blob (cdata): A pointer of C type <cdata 'hb_blob_t *'>.
         """
         self._blob = hb_blob
+        self._owner = owner  # keep a reference
         if reference:
             self.reference()
 
@@ -417,11 +426,13 @@ class HBBlob(object):
                                   mode,
                                   ffi.NULL,
                                   ffi.NULL)
-        return HBBlob(blob)
+        return HBBlob(blob, owner=data)
 
     def get_data(self):
         length = ffi.new('unsigned int *')
         data = lib.hb_blob_get_data(self._blob, length)
+        if data == ffi.NULL:
+            return b''
         buf = ffi.unpack(data, length[0])
         return buf
 
@@ -445,6 +456,8 @@ class HBBuffer(object):
     CLUSTER_LEVEL_CHARACTERS = 2
     CLUSTER_LEVEL_DEFAULT = CLUSTER_LEVEL_MONOTONE_GRAPHEMES
 
+    _BYTE_ORDER = 'le' if sys.byteorder == 'little' else 'be'
+
     def __init__(self, hb_buffer, reference=False):
         """Constructs a HBBuffer object.
 
@@ -464,18 +477,20 @@ class HBBuffer(object):
         return self._buffer
 
     def add_utf16(self, text):
-        arr = array.array('H', text.encode('utf-16'))
+        # without a byte order mark
+        arr = array.array('H', text.encode('utf-16-' + HBBuffer._BYTE_ORDER))
         buf = ffi.new('uint16_t[]', arr.tolist())
         lib.hb_buffer_add_utf16(self._buffer, buf, len(buf), 0, -1)
 
     def add_utf32(self, text):
-        arr = array.array('I', text.encode('utf-32'))
+        # without a byte order mark
+        arr = array.array('I', text.encode('utf-32-' + HBBuffer._BYTE_ORDER))
         buf = ffi.new('uint32_t[]', arr.tolist())
         lib.hb_buffer_add_utf32(self._buffer, buf, len(buf), 0, -1)
 
     def add_utf8(self, text):
-        buf = ffi.new('char[]', text.encode('utf-8'))
-        lib.hb_buffer_add_utf8(self._buffer, buf, -1, 0, -1)
+        data = text.encode('utf-8')
+        lib.hb_buffer_add_utf8(self._buffer, data, len(data), 0, -1)
 
     @staticmethod
     def create():
-- 
2.43.0


From 19e0949cc0a934f11f1d3f4347dad985b0de32d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 75/98] fix: ICU wrapper read past available locales and null
 texts, and cut texts at a NUL

---
 svgpy/icu.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/svgpy/icu.py b/svgpy/icu.py
index 97e0d80..8f96727 100644
--- a/svgpy/icu.py
+++ b/svgpy/icu.py
@@ -511,7 +511,7 @@ class UBiDi(object):
     UBIDI_REORDER_INVERSE_FOR_NUMBERS_SPECIAL = 6
 
     # UBiDiReorderingOption
-    UBIDI_OPTION_DEFAULT = 0,
+    UBIDI_OPTION_DEFAULT = 0
     UBIDI_OPTION_INSERT_MARKS = 1
 
     # option flags for ubidi_writeReordered()
@@ -574,7 +574,9 @@ class UBiDi(object):
 
     def get_text(self):
         buf = ubidi_get_text(self._bidi)
-        return ffi.string(buf)
+        if buf == ffi.NULL:
+            return None
+        return ffi.unpack(buf, self.get_length())
 
     def get_visual_index(self, logical_index):
         self._status[0] = 0
@@ -612,7 +614,7 @@ class UBiDi(object):
         count = self.count_runs()
         for index in range(count):
             start, length, direction = self.get_visual_run(index)
-            string = ffi.string(self._source[start:start + length])
+            string = ffi.unpack(self._source + start, length)
             if direction == UBiDi.UBIDI_RTL:
                 string = string[::-1]
             yield string
@@ -634,7 +636,7 @@ class UBiDi(object):
         if length == 0:
             output = None
         else:
-            output = ffi.string(dest)
+            output = ffi.unpack(dest, min(length, dest_size))
         return output, length
 
 
@@ -674,8 +676,7 @@ class UBreakIterator(Iterator, Reversible):
         assert start >= 0
         assert end > start
         assert end <= len(self._source) - 1
-        segment = self._source[start:end]
-        return ffi.string(segment)
+        return ffi.unpack(self._source + start, end - start)
 
     def __reversed__(self):
         items = list()
@@ -702,6 +703,8 @@ class UBreakIterator(Iterator, Reversible):
 
     @staticmethod
     def get_available(index):
+        if not 0 <= index < ubrk_count_available():
+            return None
         locale = ubrk_get_available(index)
         if locale == ffi.NULL:
             return None
-- 
2.43.0


From ef082a9b66ff61b0017cf4386116707254c12017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 76/98] fix: HBFTFont.set_face() let go of the FreeType face
 the font still uses

---
 svgpy/harfbuzz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/harfbuzz.py b/svgpy/harfbuzz.py
index c92930e..83141f9 100644
--- a/svgpy/harfbuzz.py
+++ b/svgpy/harfbuzz.py
@@ -252,6 +252,7 @@ class HBFont(object):
         """
         self._font = hb_font
         self._owner = owner  # keep a reference
+        self._face_owner = None  # keep a reference
         if reference:
             self.reference()
 
@@ -277,7 +278,8 @@ class HBFont(object):
 
     def get_face(self):
         face = lib.hb_font_get_face(self._font)
-        return HBFace(face, reference=True, owner=self._owner)
+        return HBFace(face, reference=True,
+                      owner=(self._owner, self._face_owner))
 
     def get_glyph(self, unicode, variation_selector=0):
         glyph = ffi.new('hb_codepoint_t *')
@@ -322,7 +324,7 @@ class HBFont(object):
 
     def set_face(self, face):
         lib.hb_font_set_face(self._font, face.hb_face)
-        self._owner = face
+        self._face_owner = face
 
 
 class HBFTFont(HBFont):
-- 
2.43.0


From d03a40ba2e865493d9ae54b67941cb1227ce0e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 77/98] fix: PathParser.from_glyph() placed glyphs wrongly
 under any matrix but a rotation followed by a mirrored translation

---
 svgpy/path.py | 13 +++++--------
 svgpy/text.py |  2 +-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 9b9d6b2..682767f 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1282,15 +1282,12 @@ class PathParser(object):
         transform = transform.flip_y()
         if matrix is not None:
             # convert from DOMMatrixReadOnly to FTMatrix
-            other = FTMatrix()
-            other.a = matrix.a
-            other.b = matrix.b
-            other.c = matrix.c
-            other.d = matrix.d
-            transform *= other
-            tx, ty = matrix.get_translate()
-            outline.translate(int(tx * 64), int(ty * 64))
+            other = FTMatrix.from_float_array(
+                [matrix.a, matrix.c, matrix.b, matrix.d])
+            transform = other * transform
         outline.transform(transform)
+        if matrix is not None:
+            outline.translate(int(matrix.e * 64), int(matrix.f * 64))
         outline.decompose(_move_to,
                           _line_to,
                           _conic_to,
diff --git a/svgpy/text.py b/svgpy/text.py
index f080335..e5e8737 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -420,9 +420,9 @@ class SVGTextContentElement(SVGGraphicsElement):
                         glyph_bbox.transform_self(matrix)
 
                     matrix.clear()
+                    matrix.translate_self(x, y)
                     if rotate != 0:
                         matrix.rotate_self(rot_z=rotate)
-                    matrix.translate_self(x, -y)
 
                     load_flags = FreeType.FT_LOAD_NO_BITMAP
                     if not horizontal:
-- 
2.43.0


From cd384414702330af664f01c2bdb0b5462cd27edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 78/98] fix: Font.ascent and descent were font units over 64,
 and cap_height failed for a font without an H

---
 svgpy/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index d9fc175..9aa11f7 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -627,7 +627,7 @@ class Font(object):
 
     @property
     def ascent(self):
-        return self._face.ascender / 64
+        return self._face.size.metrics.ascender / 64
 
     @property
     def attributes(self):
@@ -640,7 +640,7 @@ class Font(object):
             if index != 0:
                 self._face.load_char(ch, FreeType.FT_LOAD_NO_BITMAP)
                 return self._face.glyph.metrics.vert_advance / 64
-        return self._face.size.height / 64
+        return self._face.size.metrics.height / 64
 
     @property
     def ch_advance(self):
@@ -663,7 +663,7 @@ class Font(object):
 
     @property
     def descent(self):
-        return self._face.descender / 64
+        return self._face.size.metrics.descender / 64
 
     @property
     def face(self):
-- 
2.43.0


From 7820763055fdaa82457abe5e52ccd9da2edf9ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 79/98] fix: a font weight below 400 chose a heavier face when
 a lighter one exists, and one above 500 a lighter one

---
 svgpy/core.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 9aa11f7..573fe04 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -792,18 +792,23 @@ class FontManager(object):
             group = [x for x in iter(matched) if
                      font_weight == x[FontConfig.FC_WEIGHT]]
             if len(group) == 0:
-                # FIXME: narrow down by nearest font weight.
-                fc_weight_table = set(
-                    [x[FontConfig.FC_WEIGHT] for x in iter(matched)])
-                if font_weight < Font.WEIGHT_NORMAL:  # <400
-                    fc_weight_table = sorted(fc_weight_table, reverse=True)
-                else:  # >=400
-                    fc_weight_table = sorted(fc_weight_table)
-                index = np.abs(
-                    np.asarray(fc_weight_table) - font_weight).argmin()
+                # narrow down by nearest font weight
+                # https://drafts.csswg.org/css-fonts/#font-style-matching
+                def _distance(weight):
+                    if font_weight < Font.WEIGHT_NORMAL:
+                        preferred = weight < font_weight
+                    elif font_weight <= 500:
+                        if font_weight < weight <= 500:
+                            return -1, weight
+                        preferred = weight < font_weight
+                    else:
+                        preferred = weight > font_weight
+                    return not preferred, abs(weight - font_weight)
+
+                fc_weight = min([x[FontConfig.FC_WEIGHT]
+                                 for x in iter(matched)], key=_distance)
                 group = [x for x in iter(matched) if
-                         fc_weight_table[index] == x[
-                             FontConfig.FC_WEIGHT]]
+                         fc_weight == x[FontConfig.FC_WEIGHT]]
             if len(group) == 0:
                 continue
             else:
-- 
2.43.0


From 72ca3c1fe127f7118d43a83fe4e5344960c54935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 80/98] fix: glyph placement rounds as before (reverts the
 from_glyph() change, which moved rotated text by 1/64 px)

---
 svgpy/path.py | 13 ++++++++-----
 svgpy/text.py |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 682767f..9b9d6b2 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1282,12 +1282,15 @@ class PathParser(object):
         transform = transform.flip_y()
         if matrix is not None:
             # convert from DOMMatrixReadOnly to FTMatrix
-            other = FTMatrix.from_float_array(
-                [matrix.a, matrix.c, matrix.b, matrix.d])
-            transform = other * transform
+            other = FTMatrix()
+            other.a = matrix.a
+            other.b = matrix.b
+            other.c = matrix.c
+            other.d = matrix.d
+            transform *= other
+            tx, ty = matrix.get_translate()
+            outline.translate(int(tx * 64), int(ty * 64))
         outline.transform(transform)
-        if matrix is not None:
-            outline.translate(int(matrix.e * 64), int(matrix.f * 64))
         outline.decompose(_move_to,
                           _line_to,
                           _conic_to,
diff --git a/svgpy/text.py b/svgpy/text.py
index e5e8737..f080335 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -420,9 +420,9 @@ class SVGTextContentElement(SVGGraphicsElement):
                         glyph_bbox.transform_self(matrix)
 
                     matrix.clear()
-                    matrix.translate_self(x, y)
                     if rotate != 0:
                         matrix.rotate_self(rot_z=rotate)
+                    matrix.translate_self(x, -y)
 
                     load_flags = FreeType.FT_LOAD_NO_BITMAP
                     if not horizontal:
-- 
2.43.0


From 915b4c9a9785eda6d2b35f1c2a49e216003d7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:36 +0000
Subject: [PATCH 81/98] fix: ICU warnings were read as errors (status
 unsigned), and reordered text with inserted marks was cut

---
 svgpy/icu.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/svgpy/icu.py b/svgpy/icu.py
index 8f96727..d706df7 100644
--- a/svgpy/icu.py
+++ b/svgpy/icu.py
@@ -38,6 +38,7 @@ typedef int8_t UBool;
 
 /* ---- utypes.h ---- */
 typedef enum UErrorCode {
+    U_USING_FALLBACK_WARNING = -128,
     U_ZERO_ERROR = 0,
 } UErrorCode;
 
@@ -633,6 +634,16 @@ class UBiDi(object):
                                        dest_size,
                                        options,
                                        self._status)
+        if length > dest_size:
+            # marks were inserted
+            dest_size = length
+            dest = ffi.new('UChar[{}]'.format(dest_size))
+            self._status[0] = 0
+            length = ubidi_write_reordered(self._bidi,
+                                           dest,
+                                           dest_size,
+                                           options,
+                                           self._status)
         if length == 0:
             output = None
         else:
-- 
2.43.0


From ef06b2f93da019000a12edfcbd7ac7d9dd8f6b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 82/98] fix: font-stretch took a face farther to the wrong side
 where a narrower (normal, condensed) or wider (expanded) one exists

---
 svgpy/core.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 573fe04..5e49155 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -750,19 +750,22 @@ class FontManager(object):
                      fc_width == x[FontConfig.FC_WIDTH]]
             if len(group) == 0 and fc_width is not None:
                 # narrow down by nearest font width
-                fc_width_table = set(
-                    [x[FontConfig.FC_WIDTH] for x in iter(matched)])
-                if (font_stretch == 'normal'
-                        or font_stretch.endswith('condensed')):
-                    # 'normal' or '*condensed'
-                    fc_width_table = sorted(fc_width_table)
-                elif font_stretch.endswith('expanded'):
-                    # '*expanded'
-                    fc_width_table = sorted(fc_width_table, reverse=True)
-                index = np.abs(
-                    np.asarray(fc_width_table) - fc_width).argmin()
+                # https://drafts.csswg.org/css-fonts/#font-style-matching
+                def _width_distance(width):
+                    if (font_stretch == 'normal'
+                            or font_stretch.endswith('condensed')):
+                        # 'normal' or '*condensed'
+                        preferred = width < fc_width
+                    else:
+                        # '*expanded'
+                        preferred = width > fc_width
+                    return not preferred, abs(width - fc_width)
+
+                fc_nearest = min([x[FontConfig.FC_WIDTH]
+                                  for x in iter(matched)],
+                                 key=_width_distance)
                 group = [x for x in iter(matched) if
-                         fc_width_table[index] == x[FontConfig.FC_WIDTH]]
+                         fc_nearest == x[FontConfig.FC_WIDTH]]
             if len(group) == 0:
                 continue
             else:
-- 
2.43.0


From bcb70492b246b54b82d0694139bf72204c245dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 83/98] fix: a font family name with '-', ':' or ',' was read
 as a fontconfig pattern, and never found

---
 svgpy/core.py       | 5 +++--
 svgpy/fontconfig.py | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 5e49155..e367fb6 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -906,7 +906,8 @@ class FontManager(object):
                        FontConfig.FC_PIXEL_SIZE, FontConfig.FC_SLANT,
                        FontConfig.FC_WEIGHT, FontConfig.FC_WIDTH]
         fc_format = '\t'.join(['%{{{}}}'.format(x) for x in fc_elements])
-        matched = FontConfig.list(family, fc_elements, fc_format)
+        matched = FontConfig.list(FontConfig.escape(family),
+                                  fc_elements, fc_format)
         style_sequence = list()
         for line in iter(matched):
             items = line.split('\t')
@@ -926,7 +927,7 @@ class FontManager(object):
 
     @staticmethod
     def match(family):
-        matched = FontConfig.match(family, '%{family[0]}')
+        matched = FontConfig.match(FontConfig.escape(family), '%{family[0]}')
         if len(matched) == 0:
             return None
         return matched[0]
diff --git a/svgpy/fontconfig.py b/svgpy/fontconfig.py
index b4e8d73..341c2be 100644
--- a/svgpy/fontconfig.py
+++ b/svgpy/fontconfig.py
@@ -13,6 +13,8 @@
 # limitations under the License.
 
 
+import re
+
 from cffi import FFI
 
 from ._ffi_api import dlopen
@@ -191,6 +193,11 @@ class FontConfig(object):
 
     version = lib.FcGetVersion()
 
+    @staticmethod
+    def escape(name):
+        # '-' begins a size, ':' a property and ',' another name
+        return re.sub(r'([\\\-:,])', r'\\\1', name)
+
     @staticmethod
     def get_config_files():
         cdata = ffi.gc(lib.FcConfigGetConfigFiles(ffi.NULL),
-- 
2.43.0


From c00eef627836dd9c3fd7cdf8a5da76c130c8c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 84/98] fix: let font-feature-settings take precedence over
 font-variant and font-kerning

---
 svgpy/opentype.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/opentype.py b/svgpy/opentype.py
index 0d815c1..d30ce4b 100644
--- a/svgpy/opentype.py
+++ b/svgpy/opentype.py
@@ -625,7 +625,7 @@ language_tag_to_iso639_codes_map = {
 
 
 def features_from_style(style):
-    features = style['font-feature-settings'].copy()  # type: dict
+    features = {}
 
     font_kerning = style['font-kerning']
     if font_kerning == 'none':
@@ -747,6 +747,9 @@ def features_from_style(style):
     elif font_variant_position == 'super':
         features['sups'] = 1
 
+    # the settings take precedence over those of the other properties
+    features.update(style['font-feature-settings'])
+
     return ['{}={}'.format(tag, value) for tag, value in features.items()]
 
 
-- 
2.43.0


From 5269b3001227d50b027b9197418c331ebad24922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 85/98] fix: apply the OpenType feature of
 font-variant-east-asian: jis04

---
 svgpy/opentype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/opentype.py b/svgpy/opentype.py
index d30ce4b..936ade9 100644
--- a/svgpy/opentype.py
+++ b/svgpy/opentype.py
@@ -671,6 +671,8 @@ def features_from_style(style):
         features['jp83'] = 1
     elif 'jis90' in font_variant_east_asian:
         features['jp90'] = 1
+    elif 'jis04' in font_variant_east_asian:
+        features['jp04'] = 1
     elif 'simplified' in font_variant_east_asian:
         features['smpl'] = 1
     elif 'traditional' in font_variant_east_asian:
-- 
2.43.0


From 717453aa6661faf2900a73bd5b3d25a70ebeb651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 86/98] fix: keep the text after any child in text_content of
 text elements

---
 svgpy/dom.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 2a424e5..be6c2ab 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1564,15 +1564,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             chars.append(element.text)
 
         for child in iter(element):
-            if child.node_type != Node.ELEMENT_NODE:
-                continue
-            local_name = child.local_name
-            if local_name in Element.TEXT_CONTENT_ELEMENTS:
+            if (child.node_type == Node.ELEMENT_NODE
+                    and child.local_name in Element.TEXT_CONTENT_ELEMENTS):
                 contents = Element._get_text_content(child)
                 chars.extend(contents)
-                if (local_name in Element.TEXT_CONTENT_CHILD_ELEMENTS
-                        and child.tail is not None):
-                    chars.append(child.tail)
+            if child.tail is not None:
+                chars.append(child.tail)
         return chars
 
     def addnext(self, node):
-- 
2.43.0


From 18ce842c42052312730d6ac85d56d915e398ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 87/98] fix: look for owner_svg_element and viewport_element
 among the ancestors

---
 svgpy/base.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index d5e1075..01d1c13 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -149,8 +149,12 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         farthest = self.get_farthest_svg_element()
         if farthest is not None and hash(farthest) == hash(self):
             return None
-        nearest = self.get_nearest_svg_element()
-        return nearest
+        element = self.getparent()
+        while element is not None:
+            if element.local_name == 'svg':
+                return element
+            element = element.getparent()
+        return None
 
     @property
     def viewport_element(self):
@@ -161,8 +165,12 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         farthest = self.get_farthest_svg_element()
         if farthest is not None and hash(farthest) == hash(self):
             return None
-        nearest = self.get_nearest_viewport_element()
-        return nearest
+        element = self.getparent()
+        while element is not None:
+            if element.local_name in ('svg', 'symbol'):
+                return element
+            element = element.getparent()
+        return None
 
     def get_farthest_svg_element(self):
         """Returns the outermost 'svg' element.
-- 
2.43.0


From 72b9a1e46ddbb18724b2ce2bd8595d620e35bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 88/98] fix: find viewports and view boxes of svg elements
 within HTML elements

---
 svgpy/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 01d1c13..f17c1a1 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -222,7 +222,7 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         """
         element = self
         while element is not None:
-            root = element.get_nearest_viewport_element()
+            root = SVGElement.get_nearest_viewport_element(element)
             if root is None:
                 return None
             assert isinstance(root, SVGFitToViewBox)
@@ -272,7 +272,7 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         element = self
         roots = list()
         while element is not None:
-            root = element.get_nearest_viewport_element()
+            root = SVGElement.get_nearest_viewport_element(element)
             if root is None:
                 break
             roots.insert(0, root)
-- 
2.43.0


From 8e78a5c702cf46f7adf7bfdaa31612ed0f40cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 89/98] fix: place the words of right-to-left runs in order
 from where the run starts, use the direction property as the base direction,
 and give their lengths in logical order

---
 svgpy/text.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index f080335..bb5ba22 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -324,8 +324,8 @@ class SVGTextContentElement(SVGGraphicsElement):
 
         para = UBiDi()
         para.set_para(out_text,
-                      UBiDi.UBIDI_DEFAULT_LTR if ltr
-                      else UBiDi.UBIDI_DEFAULT_RTL)
+                      UBiDi.UBIDI_LTR if ltr
+                      else UBiDi.UBIDI_RTL)
         max_limit = para.get_processed_length()
         bi = UBreakIterator(UBreakIterator.UBRK_LINE, locale.locale)
         source = out_text.encode('utf-16-le', 'surrogatepass')
@@ -344,7 +344,13 @@ class SVGTextContentElement(SVGGraphicsElement):
                 text_start += len(line)
             if ((not ltr and para_level == UBiDi.UBIDI_LTR)
                     or (ltr and para_level == UBiDi.UBIDI_RTL)):
+                if len(lines) > 1:
+                    # the run starts where its first character is placed
+                    it = text_positions[lines[0][0]]
+                    current_x = it.pop('x', current_x) + it.pop('dx', 0)
+                    current_y = it.pop('y', current_y) + it.pop('dy', 0)
                 lines.reverse()
+            line_advances = dict()
             for line_start, line in lines:
                 buf.clear_contents()
                 buf.set_language(hb_language)
@@ -362,6 +368,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 line_path_data = list()
                 line_bbox = DOMRect()
                 line_bytes = line.encode('utf-8')
+                line_advance_list = line_advances[line_start] = list()
                 next_index = line_start
                 for info, position in zip(infos, positions):
                     # clusters are counted in bytes
@@ -411,7 +418,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                                                  advance)
                         x_advance = 0
                         y_advance = advance
-                    advance_list.append(advance)
+                    line_advance_list.append(advance)
                     if rotate != 0:
                         matrix.clear()
                         matrix.translate_self(x, y)
@@ -460,6 +467,9 @@ class SVGTextContentElement(SVGGraphicsElement):
                 path_data_list += line_path_data
                 text_bbox |= line_bbox
 
+            for line_start in sorted(line_advances):
+                # in logical order
+                advance_list += line_advances[line_start]
             logical_start = limit
 
         return path_data_list, advance_list, text_bbox, (current_x, current_y)
-- 
2.43.0


From 285493caece8bc6daadbf91d83cc90ff5389c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 90/98] fix: let the marker and font-variant shorthand
 properties override the longhand properties declared before

---
 svgpy/dom.py   | 26 ++++++++++++++++++--------
 svgpy/style.py |  3 +++
 svgpy/utils.py |  2 ++
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index be6c2ab..302d1da 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1881,7 +1881,10 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         def _update_font_prop(_value, _style, _inherited_style):
             _other = CSSUtils.parse_font(_value)
             for _key in _other:
-                if _key not in _style:
+                if _key == 'font-variant' and _key in css_style:
+                    # declared after the 'font' shorthand property
+                    continue
+                elif _key not in _style:
                     _style[_key] = _other[_key]
                     if _key == 'font-variant':
                         _update_font_variant_prop(_other[_key],
@@ -1913,10 +1916,18 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             _inherited_style.pop('font-variant', None)
 
         def _set_prop(_key, _value, _style):
+            # a shorthand property resets the longhand properties declared
+            # before
             if _key == 'font':
-                # resets the longhand properties declared before
                 for _name in CSSUtils.parse_font(_value):
                     _style.pop(_name, None)
+            if _key in ['font', 'font-variant']:
+                for _name in CSSUtils.parse_font_variant('normal'):
+                    _style.pop(_name, None)
+            elif _key == 'marker':
+                for _name in ['marker-end', 'marker-mid', 'marker-start']:
+                    _style.pop(_name, None)
+                    _style[_name] = _value
             _style.pop(_key, None)
             _style[_key] = _value
 
@@ -2024,8 +2035,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             # the presentation attributes precede the author style sheets
             css_style = dict(element.attrib)
             _style = css_style.pop('style', None)
+            if 'marker' in css_style:
+                for key in ['marker-end', 'marker-mid', 'marker-start']:
+                    css_style.setdefault(key, css_style['marker'])
             rule_style, css_style_important = get_css_style(element, css_rules)
-            css_style.update(rule_style)
+            for key, value in rule_style.items():
+                _set_prop(key, value, css_style)
             for key, value in style_to_dict(_style).items():
                 value, priority = split_priority(value)
                 _set_prop(key, value, css_style)
@@ -2052,11 +2067,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                     elif key == 'marker':
                         # 'marker' shorthand property
                         style[key] = value
-                        for _key in ['marker-end',
-                                     'marker-mid',
-                                     'marker-start']:
-                            style.setdefault(_key, value)
-                            inherited_props.pop(_key, None)
                         inherited_props.pop(key, None)
                     else:
                         if key in ['font-variant-alternates',
diff --git a/svgpy/style.py b/svgpy/style.py
index c8caa54..e4e1322 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -374,7 +374,10 @@ def get_css_style(element, css_rules):
     declarations.sort(key=lambda x: x[0])
     for _, declaration in declarations:
         for key, (value, priority) in declaration.items():
+            # keeps the order of the last declarations
+            style.pop(key, None)
             style[key] = value
             if priority == 'important':
+                style_important.pop(key, None)
                 style_important[key] = value
     return style, style_important
diff --git a/svgpy/utils.py b/svgpy/utils.py
index e7ae66b..cd8d8a4 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -302,6 +302,8 @@ def style_to_dict(text):
             value += _IMPORTANT
         elif split_priority(style.get(key, ''))[1] == 'important':
             continue
+        # the last declaration of a property decides its place
+        style.pop(key, None)
         style[key] = value
     return style
 
-- 
2.43.0


From d4730e48b1255cd2551262b33e17363383bdfa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 91/98] fix: raise an SVGLength to a fractional power

---
 svgpy/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/core.py b/svgpy/core.py
index e367fb6..a2171c7 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1148,6 +1148,8 @@ class SVGLength(object):
         return x
 
     def __pow__(self, power, modulo=None):
+        if isinstance(power, float):
+            power = Decimal(power)
         x = copy.copy(self)
         x._number = pow(x._number, power, modulo)
         return x
-- 
2.43.0


From d745a2388be6ed4e6883762923d4bfe0ba9428c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:59 +0000
Subject: [PATCH 92/98] fix: follow changes of the parts of a parsed math
 expression in its text

---
 svgpy/css/types.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 24d4648..e2a4062 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1103,11 +1103,33 @@ class CSSNumericValue(CSSStyleValue):
 class CSSMathValue(CSSNumericValue):
     """Represents the [css-typed-om] CSSMathValue."""
 
+    _source = None
+
+    @property
+    def _css_text(self):
+        # the parsed text stands for the value until an operand is changed
+        if self._source is None or self._source[1] != self._snapshot():
+            return None
+        return self._source[0]
+
+    @_css_text.setter
+    def _css_text(self, css_text):
+        self._source = ((css_text, self._snapshot())
+                        if css_text is not None else None)
+
     @property
     @abstractmethod
     def operator(self):
         raise NotImplementedError
 
+    def _operands(self):
+        return self._values
+
+    def _snapshot(self):
+        return [item._snapshot() if isinstance(item, CSSMathValue)
+                else (item.value, item.unit)
+                for item in self._operands()]
+
 
 class CSSMathClamp(CSSMathValue):
     """Represents the [css-typed-om] CSSMathClamp."""
@@ -1141,6 +1163,9 @@ class CSSMathClamp(CSSMathValue):
     def val(self):
         return self._val
 
+    def _operands(self):
+        return [self._min, self._val, self._max]
+
     def create_sum_value(self):
         return None
 
@@ -1174,6 +1199,9 @@ class CSSMathInvert(CSSMathValue):
     def operator(self):
         return CSSMathOperator.INVERT
 
+    def _operands(self):
+        return [self._value]
+
     def create_sum_value(self):
         values = self._value.create_sum_value()
         if values is None or len(values) > 1:
@@ -1328,6 +1356,9 @@ class CSSMathNegate(CSSMathValue):
     def operator(self):
         return CSSMathOperator.NEGATE
 
+    def _operands(self):
+        return [self._value]
+
     def create_sum_value(self):
         values = self._value.create_sum_value()
         if values is None:
-- 
2.43.0


From d51e6990aed7eed33c26b237b23c703936bea71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 93/98] fix: remove the parts of font-variant from the style
 attribute along with font

---
 svgpy/css/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 202b580..83391ae 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -73,9 +73,7 @@ class _StyleAttribute(object):
             # remove shorthand's sub-properties
             longhand_names = Shorthand.longhands(property_name)
             for longhand_name in longhand_names:
-                if longhand_name in style_map:
-                    updated = True
-                    del style_map[longhand_name]
+                updated |= self._remove(longhand_name, force=True)
 
         if force:
             return updated
-- 
2.43.0


From 780fe3100c21c24e22893e61f610e61955f842c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:25 +0000
Subject: [PATCH 94/98] fix: accept several tags in Document.iter()

---
 svgpy/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 1e6dacc..5fbacba 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -566,7 +566,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         """
         nodes = list()
         for node in self.child_nodes:
-            children = node.iter(tag=tag, *tags)
+            children = node.iter(tag, *tags)
             for child in children:
                 nodes.append(child)
         return iter(nodes)
-- 
2.43.0


From a4f772f663ba3d6244a29551566b628f38339dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 95/98] fix: an attribute belongs to the document of its
 element

---
 svgpy/dom.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 302d1da..7b85cef 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -973,6 +973,13 @@ class Attr(Node):
     def node_value(self, value):
         self.value = value
 
+    @property
+    def owner_document(self):
+        """Document: An associated document."""
+        if self._owner_element is not None:
+            return self._owner_element.owner_document
+        return super().owner_document
+
     @property
     def owner_element(self):
         """Element: The element that is associated with the attribute."""
@@ -1060,6 +1067,7 @@ class Attr(Node):
         self._value = self.value
         owner_element = self._owner_element
         self._owner_element = None
+        self._owner_document = owner_element.owner_document
         return owner_element
 
     def get_root_node(self):
-- 
2.43.0


From 401ac74dc229b4e479e95292b5730b7a4b372ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:12 +0000
Subject: [PATCH 96/98] fix: do not recurse endlessly into media queries
 without closing parenthesis

---
 svgpy/css/mediaquery.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 2e5a852..220343d 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -328,11 +328,12 @@ def _parse_media_query(query, parent):
                 start = end
             else:
                 remain = media_query[start:]
-                if media_query[start] == '(':
+                if media_query[start] == '(' and start > 0:
                     # <media-query>
                     _parse_media_query(remain, parent)
                 else:
-                    # <media-type>
+                    # <media-type>, or invalid grammar
+                    # e.g.: '(color'
                     _parse_media_type(remain, parent)
             break
     return parent
-- 
2.43.0


From 806e0ad439612990e0bf3c492229b1d530b55946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 97/98] fix: ignore values of font that cannot be parsed in the
 computed style

---
 svgpy/dom.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 7b85cef..0d2de30 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1923,10 +1923,16 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             _inherited_style.pop('font-variant-position', None)
             _inherited_style.pop('font-variant', None)
 
+        def _is_font(_value):
+            # invalid values and the system fonts are ignored
+            return _value == 'inherit' or len(CSSUtils.parse_font(_value)) > 0
+
         def _set_prop(_key, _value, _style):
             # a shorthand property resets the longhand properties declared
             # before
             if _key == 'font':
+                if not _is_font(_value):
+                    return
                 for _name in CSSUtils.parse_font(_value):
                     _style.pop(_name, None)
             if _key in ['font', 'font-variant']:
@@ -2043,6 +2049,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             # the presentation attributes precede the author style sheets
             css_style = dict(element.attrib)
             _style = css_style.pop('style', None)
+            if 'font' in css_style and not _is_font(css_style['font']):
+                del css_style['font']
             if 'marker' in css_style:
                 for key in ['marker-end', 'marker-mid', 'marker-start']:
                     css_style.setdefault(key, css_style['marker'])
-- 
2.43.0


From 8911cbf89ef3c4f611caf1f7fb371675026d850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 98/98] fix: parse registered custom properties by their
 registered syntax

---
 svgpy/css/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index e2a4062..78de622 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -507,7 +507,9 @@ class CSSStyleValue(object):
         else:
             # registered custom property or
             # single property in CSS
-            desc = css_property_descriptor_map.get(property_name)
+            desc = context.registered_property_set.get(
+                property_name,
+                css_property_descriptor_map.get(property_name))
             if desc is None:
                 desc = PropertyDescriptor(
                     name=property_name,
-- 
2.43.0

