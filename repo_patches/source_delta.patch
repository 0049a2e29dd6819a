From 135c2d51eaf74f9c85c3f63b89771606e8fff34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 01/28] fix: make RoadType an enumeration so its members are
 written as keywords

---
 pyodrx/enumerations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/enumerations.py b/pyodrx/enumerations.py
index c404ca1..623cb89 100644
--- a/pyodrx/enumerations.py
+++ b/pyodrx/enumerations.py
@@ -75,7 +75,7 @@ class RoadMarkType(Enum):
     custom = auto()
     edge = auto()
 
-class RoadType():
+class RoadType(Enum):
     """ Enum for RoadType
     """
     unknown = auto()
-- 
2.43.0


From 006eac66ec71d3998b78bb861313291dd14eadbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 02/28] fix: compare road ids as text when linking lanes, like
 the road registry does

---
 pyodrx/generators.py |  2 +-
 pyodrx/links.py      | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fa50d33..fd85442 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -386,5 +386,5 @@ def get_road_by_id(roads,id):
             Road
     """
     for r in roads:
-        if r.id == id:
+        if str(r.id) == str(id):
             return r
\ No newline at end of file
diff --git a/pyodrx/links.py b/pyodrx/links.py
index 5f3bfce..9b53389 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -438,7 +438,7 @@ def are_roads_consecutive(road1, road2):
 
     if road1.successor is not None and road2.predecessor is not None: 
         if road1.successor.element_type == ElementType.road and road2.predecessor.element_type == ElementType.road:
-            if road1.successor.element_id == road2.id and road2.predecessor.element_id == road1.id: 
+            if str(road1.successor.element_id) == str(road2.id) and str(road2.predecessor.element_id) == str(road1.id): 
                 return True 
 
     return False
@@ -532,7 +532,7 @@ def _get_related_lanesection(road,connected_road):
     sign = None
     road_lanesection_id = None
  
-    if road.successor and road.successor.element_id == connected_road.id:
+    if road.successor and str(road.successor.element_id) == str(connected_road.id):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -540,7 +540,7 @@ def _get_related_lanesection(road,connected_road):
             sign = -1
         road_lanesection_id = -1
 
-    elif road.predecessor and road.predecessor.element_id == connected_road.id:
+    elif road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
@@ -550,14 +550,14 @@ def _get_related_lanesection(road,connected_road):
 
     if connected_road.road_type != -1:
         # treat connecting road in junction differently 
-        if connected_road.predecessor.element_id == road.id:
+        if str(connected_road.predecessor.element_id) == str(road.id):
             if connected_road.predecessor.link_type == ContactPoint.start:
                 road_lanesection_id = -1
                 sign = -1
             else:
                 road_lanesection_id = 0
                 sign = 1
-        elif connected_road.successor.element_id == road.id:
+        elif str(connected_road.successor.element_id) == str(road.id):
             if connected_road.predecessor.link_type == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
-- 
2.43.0


From 745477f436b6d9385d71bd4e542274b92f4eb087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 03/28] fix: do not take a link to a junction for a link to the
 road with the same id

---
 pyodrx/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 9b53389..7e3ee8b 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -532,7 +532,7 @@ def _get_related_lanesection(road,connected_road):
     sign = None
     road_lanesection_id = None
  
-    if road.successor and str(road.successor.element_id) == str(connected_road.id):
+    if road.successor and road.successor.element_type == ElementType.road and str(road.successor.element_id) == str(connected_road.id):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -540,7 +540,7 @@ def _get_related_lanesection(road,connected_road):
             sign = -1
         road_lanesection_id = -1
 
-    elif road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
+    elif road.predecessor and road.predecessor.element_type == ElementType.road and str(road.predecessor.element_id) == str(connected_road.id):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
-- 
2.43.0


From 5473cb81d1331b73523de7db4fa48a031c0b9533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 04/28] fix: link connecting roads at the section that touches,
 with the side their contact point demands

---
 pyodrx/links.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 7e3ee8b..37ef92e 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -469,9 +469,9 @@ def create_lane_links(road1,road2):
     #                 _create_links_roads(road1,road2)
     #             elif road1.predecessor and road1.predecessor.element_id == road2.id:
     #                 _create_links_roads(road2,road1)
-    elif road1.road_type != -1:
+    if road1.road_type != -1:
         _create_links_connecting_road(road1,road2)
-    elif road2.road_type != -1:
+    if road2.road_type != -1:
 
         _create_links_connecting_road(road2,road1)
     
@@ -486,13 +486,12 @@ def _create_links_connecting_road(connecting,road):
 
     """
     linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
-    _, _, road_lanesection_id =  _get_related_lanesection(road,connecting)
 
-    if connecting_lanesec != None:
+    if linktype != None:
         if connecting.lanes.lanesections[connecting_lanesec].leftlanes:
             # do left lanes
-            for i in range(len(connecting.lanes.lanesections[road_lanesection_id].leftlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].leftlanes[i].lane_id*sign
+            for i in range(len(connecting.lanes.lanesections[connecting_lanesec].leftlanes)):
+                linkid = connecting.lanes.lanesections[connecting_lanesec].leftlanes[i].lane_id*sign
                 if linktype == 'predecessor':
                     linkid += connecting.lane_offset_pred
                 else:
@@ -502,7 +501,7 @@ def _create_links_connecting_road(connecting,road):
         if connecting.lanes.lanesections[connecting_lanesec].rightlanes:
             # do right lanes
             for i in range(len(connecting.lanes.lanesections[connecting_lanesec].rightlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].rightlanes[i].lane_id*sign
+                linkid = connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].lane_id*sign
                 if linktype == 'predecessor':
                     linkid += connecting.lane_offset_pred
                 else:
@@ -550,15 +549,15 @@ def _get_related_lanesection(road,connected_road):
 
     if connected_road.road_type != -1:
         # treat connecting road in junction differently 
-        if str(connected_road.predecessor.element_id) == str(road.id):
-            if connected_road.predecessor.link_type == ContactPoint.start:
-                road_lanesection_id = -1
+        if connected_road.predecessor and connected_road.predecessor.element_type == ElementType.road and str(connected_road.predecessor.element_id) == str(road.id):
+            if connected_road.predecessor.contact_point == ContactPoint.start:
+                road_lanesection_id = 0
                 sign = -1
             else:
-                road_lanesection_id = 0
+                road_lanesection_id = -1
                 sign = 1
-        elif str(connected_road.successor.element_id) == str(road.id):
-            if connected_road.predecessor.link_type == ContactPoint.start:
+        elif connected_road.successor and connected_road.successor.element_type == ElementType.road and str(connected_road.successor.element_id) == str(road.id):
+            if connected_road.successor.contact_point == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
             else:
-- 
2.43.0


From 226d949f90492870a36bb9e7edca21b290ba5e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 05/28] fix: link consecutive roads at the sections that touch
 and refuse before linking anything

---
 pyodrx/links.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 37ef92e..566723c 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -458,7 +458,7 @@ def create_lane_links(road1,road2):
         #both are roads
         if are_roads_consecutive(road1, road2): 
             _create_links_roads(road1,road2)
-        elif are_roads_consecutive(road2, road1): 
+        if are_roads_consecutive(road2, road1): 
             _create_links_roads(road2,road1)
 
     # if road1.road_type == -1 and road2.road_type == -1:
@@ -575,25 +575,13 @@ def _create_links_roads(pre_road,suc_road):
             suc_road (Road): the successor road
 
     """
-    pre_linktype, pre_sign, pre_connecting_lanesec =  _get_related_lanesection(pre_road,suc_road)
-    suc_linktype, _, suc_connecting_lanesec =  _get_related_lanesection(suc_road,pre_road)
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[-1].leftlanes):
-        for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
-            linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
-            print(linkid)
-            pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].add_link(pre_linktype,linkid)
-            
-
-            suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes[i].add_link(suc_linktype,linkid*pre_sign)
-    else:
-        raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
-
-
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[-1].rightlanes):
-        for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes)):
-            linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].lane_id
-            pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].add_link(pre_linktype,linkid)
-            suc_road.lanes.lanesections[suc_connecting_lanesec].rightlanes[i].add_link(suc_linktype,linkid)
-    else:
+    pre_lanesec = pre_road.lanes.lanesections[-1]
+    suc_lanesec = suc_road.lanes.lanesections[0]
+    if len(pre_lanesec.leftlanes) != len(suc_lanesec.leftlanes):
+        raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of left lanes.')
+    if len(pre_lanesec.rightlanes) != len(suc_lanesec.rightlanes):
         raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
 
+    for pre_lane, suc_lane in zip(pre_lanesec.leftlanes + pre_lanesec.rightlanes, suc_lanesec.leftlanes + suc_lanesec.rightlanes):
+        pre_lane.add_link('successor',suc_lane.lane_id)
+        suc_lane.add_link('predecessor',pre_lane.lane_id)
-- 
2.43.0


From 66a98cb604952a63be4947bc5801db25f663240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 06/28] fix: leave already positioned roads and existing lane
 links alone when adjusting again

---
 pyodrx/links.py     | 23 +++++++++++++++++++----
 pyodrx/opendrive.py |  5 +++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 566723c..7e486a9 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -475,6 +475,21 @@ def create_lane_links(road1,road2):
 
         _create_links_connecting_road(road2,road1)
     
+def _add_lane_link(lane,linktype,linkid):
+    """ _add_lane_link adds a link to a lane, unless the lane already has that link
+
+        Parameters
+        ----------
+            lane (Lane): the lane to link
+
+            linktype (str): type of link, successor or predecessor
+
+            linkid (int): id of the linked lane
+
+    """
+    if not any(l.link_type == linktype and str(l.element_id) == str(linkid) for l in lane.links.links):
+        lane.add_link(linktype,linkid)
+
 def _create_links_connecting_road(connecting,road):
     """ _create_links_connecting_road will create lane links between a connecting road and a normal road
 
@@ -496,7 +511,7 @@ def _create_links_connecting_road(connecting,road):
                     linkid += connecting.lane_offset_pred
                 else:
                     linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].leftlanes[i].add_link(linktype,linkid)
+                _add_lane_link(connecting.lanes.lanesections[connecting_lanesec].leftlanes[i],linktype,linkid)
             
         if connecting.lanes.lanesections[connecting_lanesec].rightlanes:
             # do right lanes
@@ -506,7 +521,7 @@ def _create_links_connecting_road(connecting,road):
                     linkid += connecting.lane_offset_pred
                 else:
                     linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].add_link(linktype,linkid)
+                _add_lane_link(connecting.lanes.lanesections[connecting_lanesec].rightlanes[i],linktype,linkid)
 
 
 def _get_related_lanesection(road,connected_road):
@@ -583,5 +598,5 @@ def _create_links_roads(pre_road,suc_road):
         raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
 
     for pre_lane, suc_lane in zip(pre_lanesec.leftlanes + pre_lanesec.rightlanes, suc_lanesec.leftlanes + suc_lanesec.rightlanes):
-        pre_lane.add_link('successor',suc_lane.lane_id)
-        suc_lane.add_link('predecessor',pre_lane.lane_id)
+        _add_lane_link(pre_lane,'successor',suc_lane.lane_id)
+        _add_lane_link(suc_lane,'predecessor',pre_lane.lane_id)
diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 39f0fc6..212e202 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -477,8 +477,9 @@ class OpenDrive():
         count_total_adjusted_roads = 0
         fixed_road = False
         for k in self.roads:
-            if self.roads[k].planview.fixed:
-                self.roads[k].planview.adjust_geometries()
+            if self.roads[k].planview.fixed or self.roads[k].planview.adjusted:
+                if not self.roads[k].planview.adjusted:
+                    self.roads[k].planview.adjust_geometries()
                 # print('Fixing Road: ' + k)
                 count_total_adjusted_roads += 1
                 fixed_road = True
-- 
2.43.0


From 5e55baec0d535bd87ff4398bcd9e38641ac7ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 07/28] fix: do not look up a road for a link to a junction
 when positioning roads

---
 pyodrx/opendrive.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 212e202..3deeeff 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -502,8 +502,8 @@ class OpenDrive():
 
                     # check if it has a normal (road) predecessor 
                     if self.roads[k].predecessor is not None and \
-                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True and \
-                        self.roads[k].predecessor.element_type is not ElementType.junction: 
+                        self.roads[k].predecessor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}road {} to predecessor {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].predecessor.element_id))
@@ -511,7 +511,7 @@ class OpenDrive():
                                                     self.roads[k].predecessor.contact_point, 'predecessor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[k].successor.element_type is not ElementType.junction and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
                             succ_id = self.roads[k].successor.element_id
                             print('    Adjusting successor connecting road {} in junction {} to road {} '.\
                                 format(succ_id, self.roads[k].road_type, self.roads[k].id))
@@ -523,8 +523,8 @@ class OpenDrive():
 
                     # check if geometry has a normal (road) successor 
                     elif self.roads[k].successor is not None and \
-                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True and \
-                        self.roads[k].successor.element_type is not ElementType.junction: 
+                        self.roads[k].successor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}successor {} to road {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].successor.element_id))
@@ -532,7 +532,7 @@ class OpenDrive():
                                                     self.roads[k].successor.contact_point, 'successor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[k].predecessor.element_type is not ElementType.junction and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
                             pred_id = self.roads[k].predecessor.element_id
                             print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
                                 format(pred_id, self.roads[k].road_type, self.roads[k].id))
-- 
2.43.0


From 5490724d2f94214679f6e4da1d51af8181f2057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 08/28] fix: position the roads around a connecting road that
 is fixed or added first

---
 pyodrx/opendrive.py | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 3deeeff..6134b95 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -511,16 +511,6 @@ class OpenDrive():
                                                     self.roads[k].predecessor.contact_point, 'predecessor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[k].successor.element_type is not ElementType.junction and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
-                            succ_id = self.roads[k].successor.element_id
-                            print('    Adjusting successor connecting road {} in junction {} to road {} '.\
-                                format(succ_id, self.roads[k].road_type, self.roads[k].id))
-                            if self.roads[k].successor.contact_point == ContactPoint.start:
-                                self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'predecessor')
-                            else:
-                                self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'successor')
-                            count_adjusted_roads +=1
-
                     # check if geometry has a normal (road) successor 
                     elif self.roads[k].successor is not None and \
                         self.roads[k].successor.element_type is not ElementType.junction and \
@@ -532,16 +522,29 @@ class OpenDrive():
                                                     self.roads[k].successor.contact_point, 'successor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[k].predecessor.element_type is not ElementType.junction and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
-                            pred_id = self.roads[k].predecessor.element_id
-                            print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
-                                format(pred_id, self.roads[k].road_type, self.roads[k].id))
-                            if self.roads[k].predecessor.contact_point == ContactPoint.start:
-                                self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'predecessor')
-                            else:
-                                self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'successor')
-                            count_adjusted_roads +=1
-            
+                # roads connected by an adjusted connecting road only know the junction, hence adjust them from here
+                if self.roads[k].planview.adjusted is True:
+
+                    if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[k].successor.element_type is not ElementType.junction and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
+                        succ_id = self.roads[k].successor.element_id
+                        print('    Adjusting successor connecting road {} in junction {} to road {} '.\
+                            format(succ_id, self.roads[k].road_type, self.roads[k].id))
+                        if self.roads[k].successor.contact_point == ContactPoint.start:
+                            self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'predecessor')
+                        else:
+                            self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'successor')
+                        count_adjusted_roads +=1
+
+                    if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[k].predecessor.element_type is not ElementType.junction and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
+                        pred_id = self.roads[k].predecessor.element_id
+                        print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
+                            format(pred_id, self.roads[k].road_type, self.roads[k].id))
+                        if self.roads[k].predecessor.contact_point == ContactPoint.start:
+                            self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'predecessor')
+                        else:
+                            self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'successor')
+                        count_adjusted_roads +=1
+
             count_total_adjusted_roads += count_adjusted_roads
 
             if count_total_adjusted_roads != len(self.roads) and count_adjusted_roads == 0:
-- 
2.43.0


From 65b128dffe6f37cd8067149e53910386c22a29cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 09/28] fix: report an undefined network when a link leads to a
 road outside it

---
 pyodrx/opendrive.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 6134b95..be40ba6 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -503,6 +503,7 @@ class OpenDrive():
                     # check if it has a normal (road) predecessor 
                     if self.roads[k].predecessor is not None and \
                         self.roads[k].predecessor.element_type is not ElementType.junction and \
+                        str(self.roads[k].predecessor.element_id) in self.roads and \
                         self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}road {} to predecessor {}'.\
@@ -514,6 +515,7 @@ class OpenDrive():
                     # check if geometry has a normal (road) successor 
                     elif self.roads[k].successor is not None and \
                         self.roads[k].successor.element_type is not ElementType.junction and \
+                        str(self.roads[k].successor.element_id) in self.roads and \
                         self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}successor {} to road {}'.\
@@ -525,7 +527,7 @@ class OpenDrive():
                 # roads connected by an adjusted connecting road only know the junction, hence adjust them from here
                 if self.roads[k].planview.adjusted is True:
 
-                    if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[k].successor.element_type is not ElementType.junction and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
+                    if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[k].successor.element_type is not ElementType.junction and str(self.roads[k].successor.element_id) in self.roads and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
                         succ_id = self.roads[k].successor.element_id
                         print('    Adjusting successor connecting road {} in junction {} to road {} '.\
                             format(succ_id, self.roads[k].road_type, self.roads[k].id))
@@ -535,7 +537,7 @@ class OpenDrive():
                             self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'successor')
                         count_adjusted_roads +=1
 
-                    if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[k].predecessor.element_type is not ElementType.junction and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
+                    if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[k].predecessor.element_type is not ElementType.junction and str(self.roads[k].predecessor.element_id) in self.roads and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
                         pred_id = self.roads[k].predecessor.element_id
                         print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
                             format(pred_id, self.roads[k].road_type, self.roads[k].id))
-- 
2.43.0


From b23ad9cce322a21d5bff83e27c296f43da00b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 10/28] fix: refuse a road link without contact point instead
 of reading an unbound position

---
 pyodrx/opendrive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index be40ba6..cb3e87f 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -437,6 +437,8 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
+            else:
+                raise ValueError('the contact point is needed to connect road ' + str(road_id) + ' to road ' + str(neighbour_id))
             num_lane_offsets = main_road.lane_offset_pred
             x = -num_lane_offsets*3*np.sin(h) + x
             y = num_lane_offsets*3*np.cos(h) + y
@@ -451,6 +453,8 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
+            else:
+                raise ValueError('the contact point is needed to connect road ' + str(road_id) + ' to road ' + str(neighbour_id))
             num_lane_offsets = main_road.lane_offset_suc
             x = num_lane_offsets*3*np.sin(h) + x
             y = -num_lane_offsets*3*np.cos(h) + y
-- 
2.43.0


From f2e1101207344d229421a0df6e0fd30b0baa3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 11/28] fix: order and station the geometries of a plan view
 positioned from its end

---
 pyodrx/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 0ab0729..a67f726 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -284,12 +284,13 @@ class PlanView():
             self.y_start = self.present_y
             self.h_start = self.present_h + np.pi
 
-            length = sum(lengths)           
+            self._adjusted_geometries.reverse()
+            lengths.reverse()
             self.present_s = 0
              
             for i in range(len(self._raw_geometries)):
 
-                newgeom.set_s(self.present_s)
+                self._adjusted_geometries[i].set_s(self.present_s)
                 self.present_s += lengths[i]  
 
         self.adjusted = True
-- 
2.43.0


From abc7d0dd00a16c1d21f929db7ff2f32033665d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 12/28] fix: start position of a ParamPoly3 computed from its
 end

---
 pyodrx/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index a67f726..5b87e63 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -844,9 +844,9 @@ class ParamPoly3():
         newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
         newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3
 
-        new_x = x - (newu*np.cos(h)-np.sin(h)*newv)
-        new_y = y - (newu*np.sin(h)+np.cos(h)*newv)
         new_h = h - np.arctan2(self.bv + 2*self.cv*p + 3*self.dv*p**2,self.bu + 2*self.cu*p + 3*self.du*p**2)
+        new_x = x + newu*np.cos(new_h)-np.sin(new_h)*newv
+        new_y = y + newu*np.sin(new_h)+np.cos(new_h)*newv
 
         return new_x, new_y, new_h, self.length
     def get_end_data(self,x,y,h):
-- 
2.43.0


From 14d3d98025952c5cc85f6f21617dcebd551034fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 13/28] fix: length of a spiral given by its angle or by a zero
 curvature rate

---
 pyodrx/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 5b87e63..35051a9 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -451,10 +451,10 @@ class Spiral():
             raise NotEnoughInputArguments('Spiral is underdefined')
         if sum([x!=None for x in [length,angle,cdot]]) > 1:
             raise ToManyOptionalArguments('Spiral is overdefined, please use only one of the optional inputs')
-        if angle:
-            self.length = 2*abs(angle)/np.maximum(abs(curvend),abs(curvstart))
+        if angle != None:
+            self.length = 2*abs(angle/(curvend + curvstart))
 
-        elif cdot:
+        elif cdot != None:
             self.length =  (self.curvend - self.curvstart) / cdot
         else:
             self.length = length
-- 
2.43.0


From 67bbea5f582d2456ea327b1bc2363272ebcdced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 14/28] fix: do not let pose queries change an arc

---
 pyodrx/geometry.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 35051a9..b3da463 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -581,6 +581,8 @@ class Arc():
         if curvature == 0:
             raise ValueError('You are creating a straight line, please use Line instead')
         self.curvature = curvature
+        if self.length == None:
+            self.length = np.abs(self.angle/self.curvature)
 
     def get_end_data(self,x,y,h):
         """ Returns information about the end point of the geometry
@@ -616,16 +618,11 @@ class Arc():
             x_0 = x - np.cos(phi_0)*radius
             y_0 = y - np.sin(phi_0)*radius
 
-        if self.length:
-            self.angle = self.length * self.curvature
+        angle = self.length * self.curvature
 
-        new_ang = self.angle + phi_0
-        if self.angle:         
-            self.length = np.abs(radius*self.angle)
+        new_ang = angle + phi_0
 
-            
-
-        new_h = h + self.angle
+        new_h = h + angle
         new_x = np.cos(new_ang)*radius + x_0
         new_y = np.sin(new_ang)*radius + y_0
 
@@ -654,7 +651,6 @@ class Arc():
             length (float): length of the element
 
         """
-        print('inside the geometry we have ', end_x, end_y, end_h)
         x = end_x
         y = end_y 
         h = end_h
@@ -670,23 +666,14 @@ class Arc():
             x_0 = x - np.cos(phi_0)*radius
             y_0 = y - np.sin(phi_0)*radius
 
-        if self.length:
-            self.angle = self.length * inv_curv
+        angle = self.length * inv_curv
 
-        new_ang = self.angle + phi_0
-        if self.angle:         
-            self.length = np.abs(radius*self.angle)
+        new_ang = angle + phi_0
 
-            
-        
-        print('self andgle is ', self.angle )
-        print('h is ', h)
-        new_h = h + self.angle
+        new_h = h + angle
         new_x = np.cos(new_ang)*radius + x_0
         new_y = np.sin(new_ang)*radius + y_0
 
-        print('out of the geometry we get ', new_x, new_y, new_h)
-
         return new_x, new_y, new_h, self.length
 
     def get_attributes(self):
-- 
2.43.0


From 6fc90a3d4a86bf228b607108055c3710fd222500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 15/28] fix: keep explicitly given zeros (and the given space)
 in road marks

---
 pyodrx/lane.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 7b96b28..14f801c 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -524,24 +524,24 @@ class RoadMark():
         #TODO: there may be more line child elements per roadmark, which is currently unsupported
         self._line = None
         #check if arguments were passed that require line child element
-        if any([length, space, toffset, rule]):
+        if any(x is not None for x in [length, space, toffset, rule]):
             #set defaults in case no values were provided
             #values for broken lines 
             if marking_type == RoadMarkType.broken: 
-                self.length = length or 3
-                self.space = space or 3
+                self.length = length if length is not None else 3
+                self.space = space if space is not None else 3
             #values for solid lines 
             elif marking_type == RoadMarkType.solid:
-                self.length = length or 3
-                self.space = space or 0
+                self.length = length if length is not None else 3
+                self.space = space if space is not None else 0
             #create empty line if arguments are missing
             else: 
-                self.length = length or 0
-                self.space = length or 0
+                self.length = length if length is not None else 0
+                self.space = space if space is not None else 0
                 print ("No defaults for arguments 'space' and 'length' for roadmark type", enum2str(marking_type), "available and no values were passed. Creating an empty roadmark.")
             #set remaining defaults
-            self.width = width or 0.2
-            self.toffset = toffset or 0
+            self.width = width if width is not None else 0.2
+            self.toffset = toffset if toffset is not None else 0
             self.rule = rule or MarkRule.none
             self._line = RoadLine(self.width,self.length,self.space,self.toffset,self.soffset,self.rule,self.color)          
 
-- 
2.43.0


From 1a84008a83b34483793b8fb9d085c85ec49a8815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 16/28] fix: do not write None as height of an object repeat

---
 pyodrx/signals_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index a916196..2ff40cc 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -457,12 +457,12 @@ class Object(_SignalObjectBase):
         if heightStart == None and self.height != None:
             self._repeats[-1]['heightStart']=str(self.height)
             infoFallback(self.id, 'heightStart')
-        else:
+        elif heightStart != None:
             self._repeats[-1]['heightStart']=str(heightStart)
         if heightEnd == None and self.height != None:
             self._repeats[-1]['heightEnd']=str(self.height)
             infoFallback(self.id, 'heightEnd')
-        else:
+        elif heightEnd != None:
             self._repeats[-1]['heightEnd']=str(heightEnd)
         if zOffsetStart == None:
             self._repeats[-1]['zOffsetStart']=str(self.zOffset)
-- 
2.43.0


From 51926da74d391084c015a35074ad4e3ad1496de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 17/28] fix: do not write None as subtype or unit

---
 pyodrx/signals_objects.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index 2ff40cc..817dd89 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -127,7 +127,8 @@ class _SignalObjectBase():
             retdict['id'] = str(self.id)
             retdict['s'] = str(self.s)
             retdict['t'] = str(self.t)
-            retdict['subtype'] = str(self.subtype)
+            if self.subtype is not None:
+                retdict['subtype'] = str(self.subtype)
             retdict['dynamic'] = enum2str(self.dynamic)
             retdict['zOffset'] = str(self.zOffset)
             if self.pitch:
@@ -250,13 +251,15 @@ class Signal(_SignalObjectBase):
         retdict = super().get_common_attributes()
         retdict["country"] = str(self.country).upper()
         retdict["type"] = str(self.type)
-        retdict["subtype"] = str(self.subtype)
+        if self.subtype is not None:
+            retdict["subtype"] = str(self.subtype)
         if self.hOffset:
             retdict["hOffset"] = str(self.hOffset)    
         #TODO check if value is supplied --> unit is mandatory in that case   
         if self.value is not None:
             retdict["value"] = str(self.value)
-            retdict["unit"] = str(self.unit)
+            if self.unit is not None:
+                retdict["unit"] = str(self.unit)
         return retdict
 
     def get_element(self):
-- 
2.43.0


From f1ed962045b26b1d9bf99a84c6e00c23a7ce913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 18/28] fix: import the error raised for different numbers of
 lanes

---
 pyodrx/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fd85442..d17ad75 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -13,6 +13,7 @@ from .enumerations import RoadMarkType, MarkRule, ContactPoint, ElementType, Obj
 from .geometry import Line, Arc, Spiral, EulerSpiral, PlanView
 from .opendrive import Road, OpenDrive
 from .links import Junction, Connection, _get_related_lanesection
+from .exceptions import NotSameAmountOfLanesError
 
 
 STD_ROADMARK_SOLID = RoadMark(RoadMarkType.solid,0.2)
-- 
2.43.0


From fde9dcc4f0cfb28fb97adb87b38ee1ca38663c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 19/28] fix: accept every geometry kind in create_road

---
 pyodrx/generators.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index d17ad75..102ee05 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -66,14 +66,11 @@ def create_road(geometry,id,left_lanes = 1, right_lanes = 1,road_type=-1,center_
             road (Road): a straight road
     """
     pv = PlanView()
-    raw_length = 0
     if isinstance(geometry,list):
         for g in geometry:
             pv.add_geometry(g)
-            raw_length += g.length
     else:
         pv.add_geometry(geometry)
-        raw_length += geometry.length
     
     # create centerlane
     lc = Lane(a=0)
-- 
2.43.0


From 2b92f545041eb1fd78f1ada795b8965848a4460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 20/28] fix: take lane count and width of a junction road from
 the joining end

---
 pyodrx/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 102ee05..4c3b7fa 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -206,9 +206,9 @@ def get_lanes_offset(road1, road2, contactpoint):
     #now we always look at lanesection[0] to take the number of lanes 
     #TO DO - understand if the roads are connect through end or start and then take the relative lane section 
     if contactpoint == ContactPoint.end: 
-        n_lanesection = 0 
+        n_lanesection = -1 
     else:
-        n_lanesection = -1
+        n_lanesection = 0
     if len(road1.lanes.lanesections[n_lanesection].leftlanes) == len(road2.lanes.lanesections[0].leftlanes) and len(road1.lanes.lanesections[n_lanesection].rightlanes) == len(road2.lanes.lanesections[0].rightlanes):
         n_lanes = len(road1.lanes.lanesections[n_lanesection].leftlanes) 
         lane_offset = road1.lanes.lanesections[n_lanesection].leftlanes[0].a     
-- 
2.43.0


From 5961cc628c848ddb992ef087b3a460e03f6ee284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 21/28] fix: apply the successor lane offset on the incoming
 road's side of a junction connection

---
 pyodrx/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 4c3b7fa..2fb43fa 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -358,8 +358,8 @@ def create_junction(junction_roads, id, roads):
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
         _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
 
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,to_offset=jr.lane_offset_suc)
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,to_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,from_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,from_offset=jr.lane_offset_suc)
         junc.add_connection(conne1)
 
         # handle predecessor lanes
-- 
2.43.0


From 86d696dbfee3f3c2a8c1c67156a07e60c56d044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 22/28] fix: link every lane of a connecting road with unequal
 sides in its junction connections

---
 pyodrx/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 2fb43fa..64e1070 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -328,7 +328,7 @@ def _create_junction_links(connection, nlanes,r_or_l,sign,from_offset=0,to_offse
                 Default: 0
     """
     for i in range(1, nlanes+1, 1):
-        connection.add_lanelink( r_or_l*i+from_offset, r_or_l*sign*i+to_offset)
+        connection.add_lanelink( r_or_l*sign*i+from_offset, r_or_l*i+to_offset)
 
 
 def create_junction(junction_roads, id, roads):
-- 
2.43.0


From 4084da4b065bc5792eaf2dc230e3c66d6852984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 23/28] fix: write files in the encoding XML assumes

---
 pyodrx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 892fb5c..240402c 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -68,7 +68,7 @@ def printToFile(element,filename,prettyprint=True):
         rough = ET.tostring(element,'utf-8').replace(b'\n',b'').replace(b'\t',b'')
         reparsed = mini.parseString(rough)
         towrite = reparsed.toprettyxml(indent="\t")
-        with open(filename,'w') as file_handle:
+        with open(filename,'w',encoding='utf-8') as file_handle:
             file_handle.write(towrite)
     else:
         tree = ET.ElementTree(element)
-- 
2.43.0


From a1560ab5f9b14f708aa5f2aa5bdaf903b0bcff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 24/28] fix: do not reuse an explicit connection id within a
 junction

---
 pyodrx/links.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 7e486a9..5b0740b 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -409,8 +409,9 @@ class Junction():
                 connection (Connection): adds a connection to the junction
 
         """
+        while str(self._id_counter) in [str(con.id) for con in self.connections]:
+            self._id_counter += 1
         connection._set_id(self._id_counter)
-        self._id_counter += 1
         self.connections.append(connection)
 
     def get_attributes(self):
-- 
2.43.0


From b62613821c6979d25708df6c612a122a070a3c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 25/28] fix: refuse a second road with an id that is already
 taken

---
 pyodrx/opendrive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index cb3e87f..f8aecdd 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -390,6 +390,8 @@ class OpenDrive():
         if (len(self.roads) == 0) and road.predecessor:
             ValueError('No road was added and the added road has a predecessor, please add the predecessor first')
 
+        if str(road.id) in self.roads and self.roads[str(road.id)] is not road:
+            raise ValueError('a road with id ' + str(road.id) + ' has already been added')
         self.roads[str(road.id)] = road        
 
     def adjust_roads_and_lanes(self): 
-- 
2.43.0


From 88fd4b94a0a06f0733a134a10600caa8cc5dddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 26/28] fix: start the viewer without a shell

---
 pyodrx/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 240402c..7f1b625 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -3,6 +3,7 @@ import xml.dom.minidom as mini
 
 
 import os
+import subprocess
 
 
 def run_road(opendrive,esminipath = 'esmini',density=15):
@@ -20,9 +21,9 @@ def run_road(opendrive,esminipath = 'esmini',density=15):
     opendrive.write_xml(os.path.join(_scenariopath,'pythonroad.xodr'),True)
     
     if os.name == 'posix':
-        os.system(os.path.join('.', esminipath, 'bin','odrviewer') + ' --odr ' + os.path.join(esminipath,'resources','xodr','pythonroad.xodr') + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density ' + str(density) )
+        subprocess.call([os.path.join('.', esminipath, 'bin','odrviewer'), '--odr', os.path.join(esminipath,'resources','xodr','pythonroad.xodr')] + '--osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density'.split() + [str(density)])
     elif os.name == 'nt':
-        os.system(os.path.join(esminipath,'bin','odrviewer.exe') + ' --odr ' + os.path.join(esminipath,'resources','xodr','pythonroad.xodr') + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density '  + str(density) )
+        subprocess.call([os.path.join(esminipath,'bin','odrviewer.exe'), '--odr', os.path.join(esminipath,'resources','xodr','pythonroad.xodr')] + '--osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density'.split() + [str(density)])
 
 
 def enum2str(enum):
-- 
2.43.0


From 2c48f8e844550ba8f8f0e6f7bab9eb2c85167f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 27/28] fix: report a road's end point also when it is
 positioned from its end

---
 pyodrx/opendrive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index f8aecdd..0cca793 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -301,7 +301,7 @@ class Road():
                 h (float): the end heading
 
         """
-        return self.planview.present_x, self.planview.present_y, self.planview.present_h
+        return self.planview.get_end_point()
     def get_attributes(self):
         """ returns the attributes as a dict of the Road
 
-- 
2.43.0


From 590a581e9fba938ffac8147bff7d441bd2b9a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:05 +0000
Subject: [PATCH 28/28] fix: link the lanes of a connecting road whose
 predecessor and successor are the same road

---
 pyodrx/generators.py |  4 ++--
 pyodrx/links.py      | 28 ++++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 64e1070..1a1ade2 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -356,7 +356,7 @@ def create_junction(junction_roads, id, roads):
     for jr in junction_roads:
         # handle succesor lanes
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
-        _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
+        _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id),'successor') 
 
         _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,from_offset=jr.lane_offset_suc)
         _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,from_offset=jr.lane_offset_suc)
@@ -364,7 +364,7 @@ def create_junction(junction_roads, id, roads):
 
         # handle predecessor lanes
         conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)
-        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id)) 
+        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id),'predecessor') 
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-1,sign,from_offset=jr.lane_offset_pred)
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),1,sign,from_offset=jr.lane_offset_pred)
         junc.add_connection(conne2)
diff --git a/pyodrx/links.py b/pyodrx/links.py
index 5b0740b..7006040 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -501,7 +501,24 @@ def _create_links_connecting_road(connecting,road):
             road (Road): a that connects to the connecting road
 
     """
-    linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
+    # the connecting road can start and end at the same road
+    for side in ('successor','predecessor'):
+        _create_links_connecting_road_side(connecting,road,side)
+
+
+def _create_links_connecting_road_side(connecting,road,side):
+    """ _create_links_connecting_road_side will create the lane links of one side of a connecting road
+
+        Parameters
+        ----------
+            connecting (Road): a road of type connecting road (not -1)
+
+            road (Road): a that connects to the connecting road
+
+            side (str): the link of the connecting road to handle (successor or predecessor)
+
+    """
+    linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road,side)
 
     if linktype != None:
         if connecting.lanes.lanesections[connecting_lanesec].leftlanes:
@@ -525,7 +542,7 @@ def _create_links_connecting_road(connecting,road):
                 _add_lane_link(connecting.lanes.lanesections[connecting_lanesec].rightlanes[i],linktype,linkid)
 
 
-def _get_related_lanesection(road,connected_road):
+def _get_related_lanesection(road,connected_road,side=None):
     """ _get_related_lanesection takes to roads, and gives the correct lane section to use
         the type of link and if the sign of lanes should be switched
 
@@ -535,6 +552,9 @@ def _get_related_lanesection(road,connected_road):
 
             connected_road (Road): the connected road
 
+            side (str): only consider this link of the road (successor or predecessor)
+                Default: None (the successor if it is the connected road, otherwise the predecessor)
+
         Returns
         -------
             linktype (str): the linktype of road to connected road (successor or predecessor)
@@ -547,7 +567,7 @@ def _get_related_lanesection(road,connected_road):
     sign = None
     road_lanesection_id = None
  
-    if road.successor and road.successor.element_type == ElementType.road and str(road.successor.element_id) == str(connected_road.id):
+    if side != 'predecessor' and road.successor and road.successor.element_type == ElementType.road and str(road.successor.element_id) == str(connected_road.id):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -555,7 +575,7 @@ def _get_related_lanesection(road,connected_road):
             sign = -1
         road_lanesection_id = -1
 
-    elif road.predecessor and road.predecessor.element_type == ElementType.road and str(road.predecessor.element_id) == str(connected_road.id):
+    elif side != 'successor' and road.predecessor and road.predecessor.element_type == ElementType.road and str(road.predecessor.element_id) == str(connected_road.id):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
-- 
2.43.0

