From 5cbee2be5e1e8c1d1249620db7f8edc134084bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 1/5] fix: compute bounds over all the edges without mutating
 stored points

---
 include/mapbox/geometry/wagyu/wagyu.hpp | 44 ++++++++-----------------
 wagyu/wagyu.py                          | 40 +++++++---------------
 2 files changed, 26 insertions(+), 58 deletions(-)

diff --git a/include/mapbox/geometry/wagyu/wagyu.hpp b/include/mapbox/geometry/wagyu/wagyu.hpp
index 908b3e3..cd7ab8c 100644
--- a/include/mapbox/geometry/wagyu/wagyu.hpp
+++ b/include/mapbox/geometry/wagyu/wagyu.hpp
@@ -67,36 +67,20 @@ class wagyu {
     }
     bool first_set = false;
     for (auto const& lm : minima_list) {
-      if (!lm.left_bound.edges.empty()) {
-        if (!first_set) {
-          min = lm.left_bound.edges.front().top;
-          max = lm.left_bound.edges.back().bot;
-          first_set = true;
-        } else {
-          min.y = std::min(min.y, lm.left_bound.edges.front().top.y);
-          max.y = std::max(max.y, lm.left_bound.edges.back().bot.y);
-          max.x = std::max(max.x, lm.left_bound.edges.back().top.x);
-          min.x = std::min(min.x, lm.left_bound.edges.back().top.x);
-        }
-        for (auto const& e : lm.left_bound.edges) {
-          max.x = std::max(max.x, e.bot.x);
-          min.x = std::min(min.x, e.bot.x);
-        }
-      }
-      if (!lm.right_bound.edges.empty()) {
-        if (!first_set) {
-          min = lm.right_bound.edges.front().top;
-          max = lm.right_bound.edges.back().bot;
-          first_set = true;
-        } else {
-          min.y = std::min(min.y, lm.right_bound.edges.front().top.y);
-          max.y = std::max(max.y, lm.right_bound.edges.back().bot.y);
-          max.x = std::max(max.x, lm.right_bound.edges.back().top.x);
-          min.x = std::min(min.x, lm.right_bound.edges.back().top.x);
-        }
-        for (auto const& e : lm.right_bound.edges) {
-          max.x = std::max(max.x, e.bot.x);
-          min.x = std::min(min.x, e.bot.x);
+      for (auto const* bnd : {&lm.left_bound, &lm.right_bound}) {
+        for (auto const& e : bnd->edges) {
+          for (auto const* pt : {&e.bot, &e.top}) {
+            if (!first_set) {
+              min = *pt;
+              max = *pt;
+              first_set = true;
+            } else {
+              min.x = std::min(min.x, pt->x);
+              min.y = std::min(min.y, pt->y);
+              max.x = std::max(max.x, pt->x);
+              max.y = std::max(max.y, pt->y);
+            }
+          }
         }
       }
     }
diff --git a/wagyu/wagyu.py b/wagyu/wagyu.py
index f1e0622..8480137 100644
--- a/wagyu/wagyu.py
+++ b/wagyu/wagyu.py
@@ -35,34 +35,18 @@ class Wagyu:
             return Box(minimum, maximum)
         first_set = False
         for local_minimum in self.minimums:
-            left_bound = local_minimum.left_bound
-            if left_bound.edges:
-                if not first_set:
-                    minimum = left_bound.edges[0].top
-                    maximum = left_bound.edges[-1].bottom
-                    first_set = True
-                else:
-                    minimum.x = min(minimum.x, left_bound.edges[-1].top.x)
-                    minimum.y = min(minimum.y, left_bound.edges[0].top.y)
-                    maximum.x = max(maximum.x, left_bound.edges[-1].top.x)
-                    maximum.y = max(maximum.y, left_bound.edges[-1].bottom.y)
-                for edge in left_bound.edges:
-                    minimum.x = min(minimum.x, edge.bottom.x)
-                    maximum.x = max(maximum.x, edge.bottom.x)
-            right_bound = local_minimum.right_bound
-            if right_bound.edges:
-                if not first_set:
-                    minimum = right_bound.edges[0].top
-                    maximum = right_bound.edges[-1].bottom
-                    first_set = True
-                else:
-                    minimum.x = min(minimum.x, right_bound.edges[-1].top.x)
-                    minimum.y = min(minimum.y, right_bound.edges[0].top.y)
-                    maximum.x = max(maximum.x, right_bound.edges[-1].top.x)
-                    maximum.y = max(maximum.y, right_bound.edges[-1].bottom.y)
-                for edge in right_bound.edges:
-                    minimum.x = min(minimum.x, edge.bottom.x)
-                    maximum.x = max(maximum.x, edge.bottom.x)
+            for bound in (local_minimum.left_bound, local_minimum.right_bound):
+                for edge in bound.edges:
+                    for point in (edge.bottom, edge.top):
+                        if first_set:
+                            minimum.x = min(minimum.x, point.x)
+                            minimum.y = min(minimum.y, point.y)
+                            maximum.x = max(maximum.x, point.x)
+                            maximum.y = max(maximum.y, point.y)
+                        else:
+                            minimum = Point(point.x, point.y)
+                            maximum = Point(point.x, point.y)
+                            first_set = True
         return Box(minimum, maximum)
 
     def add_linear_ring(self,
-- 
2.43.0


From ee2c66f213c76862d63d64e08d6803dd44f552b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 2/5] fix: avoid infinite recursion in LocalMinimumList.insert

---
 wagyu/local_minimum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/local_minimum.py b/wagyu/local_minimum.py
index e1bcff5..6d0dedf 100644
--- a/wagyu/local_minimum.py
+++ b/wagyu/local_minimum.py
@@ -168,7 +168,7 @@ class LocalMinimumList(abc.MutableSequence):
         return True
 
     def insert(self, index: int, value: LocalMinimum) -> None:
-        self.insert(index, value)
+        self.values.insert(index, value)
 
 
 def to_edges_starting_on_local_maximum(edges: List[Edge]) -> List[Edge]:
-- 
2.43.0


From 832ab0a4f4a05ec4506204e5a89cec3d63f9a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 3/5] fix: pick repeated bottom nodes not adjacent to current
 one

---
 wagyu/point_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wagyu/point_node.py b/wagyu/point_node.py
index 4d9ca63..857cf38 100644
--- a/wagyu/point_node.py
+++ b/wagyu/point_node.py
@@ -75,7 +75,8 @@ class PointNode:
                     dups = None
                     node = cursor
                 else:
-                    if cursor.next is not node and cursor.prev is node:
+                    if (cursor.next is not node
+                            and cursor.prev is not node):
                         dups = cursor
             cursor = cursor.next
         if dups is not None:
-- 
2.43.0


From e24fff53418939b972bbc7b08c3cdbcd18c887e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 4/5] fix: stop search for collinear edges ends after first
 step

---
 wagyu/point_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/point_node.py b/wagyu/point_node.py
index 857cf38..c87726b 100644
--- a/wagyu/point_node.py
+++ b/wagyu/point_node.py
@@ -310,7 +310,7 @@ def find_start_and_end_of_collinear_edges(pt_a: PointNode,
         if not first and (back is pt_b or forward is pt_a):
             break
         if (back is forward
-                or first is None and (back is end_b or forward is start_a)):
+                or not first and (back is end_b or forward is start_a)):
             back = back.prev
             forward = forward.next
             break
-- 
2.43.0


From 590b70a017151ee2bf3d1851f4df7962fbc8f957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 5/5] fix: require search ring to be the parent in intersection
 loop

---
 wagyu/ring_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/ring_manager.py b/wagyu/ring_manager.py
index 7689882..5acc401 100644
--- a/wagyu/ring_manager.py
+++ b/wagyu/ring_manager.py
@@ -780,7 +780,7 @@ class RingManager:
                 nodes_pairs_indices_to_remove.add(index)
                 continue
             if (it_ring2 is ring_origin
-                    and (ring_parent and it_ring2
+                    and (ring_parent is it_ring2
                          or ring_parent is it_ring2.parent)
                     and prev_pt != op2 and orig_pt != op2):
                 iList.appendleft((ring_search, (op1, op2)))
-- 
2.43.0

