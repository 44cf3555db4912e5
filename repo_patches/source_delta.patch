From 1b8f8212786126db6ea2b04660dfe96096e43d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 01/60] fix: List_RemSorted used an uninitialised flag, could
 read outside the list and loop forever

---
 src/util/List.c | 93 +++++++++----------------------------------------
 1 file changed, 17 insertions(+), 76 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 32a2412..08cc0e8 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -711,95 +711,36 @@ extern "C" {
 
 
   int List_RemSorted(List_ptr l, void *entry, int (*entry2int)(void *)) {
-    int imin, imax, imid, idmin, idmax, idmid, done, fnd, fnd1, imid1;
+    int imin, imax, imid, idmid, fnd;
     int nent, p, nrem, rem1, ntot, i, id;
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
     ntot = nent + nrem;
 
     imin = 0; imax = ntot-1;
-    if (!(l->entry[imin])) {
-
-      /* Search for the first valid entry */      
-      fnd1 = 0;
-      while (!fnd1 && imin <= imax)
-	if (l->entry[++imin]) fnd1 = 1;
-      if (!fnd1) 
-	MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-
-    }
+    id = (*entry2int)(entry);
 
-    if (!(l->entry[imax])) {
+    fnd = 0;
+    i = 0;
+    while (!fnd && imin <= imax) {
+      imid = (imin+imax)/2;
 
-      /* Search for the the last valid entry */
-      fnd1 = 0;
-      while (!fnd1 && imax >= imin)
-	if (l->entry[--imax]) fnd1 = 1;
-      if (!fnd1)
-	MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
+      /* Search for the next valid entry at or after the midpoint */
+      for (i = imid; i <= imax && !(l->entry[i]); i++) ;
 
-    }
-      
-    idmin = (*entry2int)(l->entry[imin]);
-    idmax = (*entry2int)(l->entry[imax]);
-
-    done = 0;
-    i = 0;
-    id = (*entry2int)(entry);
-    while (!done) { 
-      imid = (int)(0.5+(imin+imax)/2.0);
-
-      if (!(l->entry[imid])) {
-
-	/* Search for next valid entry */
-	fnd1 = 0;
-	imid1 = imid;
-	while (!fnd1 && imid1 <= imax)
-	  if (l->entry[++imid1]) fnd1 = 1;
-	if (!fnd1)
-	  MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-	else
-	  imid = imid1;
-      
-	if (imid1 == imax) {
-	  /* there were no valid entries from imid to imax */
-	  /* Search back from imid to imin */
-	  
-	  fnd1 = 0;
-	  imid1 = imid;
-	  while (!fnd1 && imid1 >= imin)
-	    if (l->entry[--imid1]) fnd1 = 1;
-	  if (!fnd1)
-	    MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-	  else
-	    imid = imid1;
-	}
+      if (i > imax) {  /* no valid entries from imid to imax */
+	imax = imid-1;
+	continue;
       }
 
-      idmid = (*entry2int)(l->entry[imid]);
-      
-      if (id <= idmid) {
-	imax = imid;
-	idmax = idmid;
-      }
-      else {
-	imin = imid;
-	idmin = idmid;
-      }      
+      idmid = (*entry2int)(l->entry[i]);
 
-      if (id == idmin) {
-	i = imin;
-	fnd = 1;
-	done = 1;
-      }
-      else if (id == idmax) {
-	i = imax;
+      if (idmid == id)
 	fnd = 1;
-	done = 1;
-      }
-      else if (imax-imin <= 1) {
-	done = 1;
-      }
+      else if (idmid < id)
+	imin = i+1;
+      else
+	imax = imid-1;
     }
 
     if (fnd) {
-- 
2.43.0


From b79b9ae56b859e65714f36bb870e491f862d1165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 02/60] fix: List_Insert inserted before the first entry that
 is not the requested one

---
 src/util/List.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/List.c b/src/util/List.c
index 08cc0e8..e1fd3db 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -508,7 +508,7 @@ extern "C" {
       for (ip = 0; ip < ntot; ip++) {
 	entry = l->entry[ip];
 	
-	if (entry != b4entry)
+	if (entry == b4entry)
 	  break;
       }
 
-- 
2.43.0


From ca5dbd34a54ee06348ccd921dbed2e3b66046a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 03/60] fix: List_Cat lost the location of the first gap of the
 appended list

---
 src/util/List.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index e1fd3db..c99be9b 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -910,9 +910,9 @@ extern "C" {
 
     memcpy(dest->entry+ntot_d,src->entry,ntot_s*sizeof(void *));
     nent_d += nent_s;
-    nrem_d += nrem_s;
     if (!nrem_d && nrem_s)
-      rem1_d = rem1_s;
+      rem1_d = ntot_d + rem1_s;
+    nrem_d += nrem_s;
 
     pvtList_Set_Pars(dest,nent_d,p_d,nrem_d,rem1_d);
 
-- 
2.43.0


From 83351b5d132e70fb2d2324f7037892de5c41e80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 04/60] fix: List_Replacei and List_Inserti wrote outside the
 list for positions past the end

---
 src/util/List.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/util/List.c b/src/util/List.c
index c99be9b..5a8e356 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -420,6 +420,11 @@ extern "C" {
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
 
+    if (i > nent) {
+      MSTK_Report("List_Inserti","Not that many entries in set",MSTK_ERROR);
+      return 0;
+    }
+
     ntot = nent + nrem;
 
     nalloc = (1<<p)-1;
@@ -770,6 +775,13 @@ extern "C" {
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
 
+    if (i >= nent) {
+#ifdef DEBUG
+      MSTK_Report("List_Replacei","Not that many entries in set",MSTK_ERROR);
+#endif
+      return 0;
+    }
+
     ntot = nent + nrem;
 
     ic = -1; /* (valid entry count)-1 (1st entry may be invalid)*/
-- 
2.43.0


From 3cef148bf884803cf81e068bb7e040acd7383077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 05/60] fix: List_RemSorted removed another entry, or none, if
 IDs were changed since the list was built

---
 src/util/List.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 5a8e356..886bbe6 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -727,7 +727,7 @@ extern "C" {
 
     fnd = 0;
     i = 0;
-    while (!fnd && imin <= imax) {
+    while (imin <= imax) {
       imid = (imin+imax)/2;
 
       /* Search for the next valid entry at or after the midpoint */
@@ -740,8 +740,10 @@ extern "C" {
 
       idmid = (*entry2int)(l->entry[i]);
 
-      if (idmid == id)
-	fnd = 1;
+      if (idmid == id) {
+	fnd = (l->entry[i] == entry);
+	break;
+      }
       else if (idmid < id)
 	imin = i+1;
       else
@@ -759,7 +761,11 @@ extern "C" {
       return 1;
     }
 
-    return 0;
+    /* The entry is not where a sorted list would have it. The list may
+       have lost its order because IDs of its entries were changed, so
+       make sure that the entry is really not in the list */
+
+    return List_Rem(l,entry);
   }
 
 
-- 
2.43.0


From a60848b7fe07e6c1add9692eee2ca6c4a2ae7288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 06/60] fix: MV_Num_Regions crashed on a vertex without regions
 in the F1 representation

---
 src/base/MVertex_F1.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/base/MVertex_F1.c b/src/base/MVertex_F1.c
index df30d34..36994f4 100644
--- a/src/base/MVertex_F1.c
+++ b/src/base/MVertex_F1.c
@@ -94,8 +94,12 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F1(v);
-    nr = List_Num_Entries(vregions);
-    List_Delete(vregions);
+    if (vregions) {
+      nr = List_Num_Entries(vregions);
+      List_Delete(vregions);
+    }
+    else
+      nr = 0;
 
     return nr;
   }
-- 
2.43.0


From 614571c6c478673addd83e92578dbee651a05892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 07/60] fix: MV_Num_Faces, MV_Num_Regions (F4) and MF_RegionID
 (F1, R4) crashed when there are no such neighbours

---
 src/base/MF_Region_Funcs_F1F3.c | 3 ++-
 src/base/MF_Region_Funcs_R4.c   | 3 ++-
 src/base/MVertex_F4.c           | 8 ++++----
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/base/MF_Region_Funcs_F1F3.c b/src/base/MF_Region_Funcs_F1F3.c
index 83a1d27..8be5400 100644
--- a/src/base/MF_Region_Funcs_F1F3.c
+++ b/src/base/MF_Region_Funcs_F1F3.c
@@ -50,7 +50,8 @@ extern "C" {
   }
 
   int MF_RegionID_F1F3(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_F1F3 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_F1F3 *) f->adj)->fregions[i];
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_F1F3(MFace_ptr f, MRegion_ptr r, int side) {
diff --git a/src/base/MF_Region_Funcs_R4.c b/src/base/MF_Region_Funcs_R4.c
index 963a717..903b5e0 100644
--- a/src/base/MF_Region_Funcs_R4.c
+++ b/src/base/MF_Region_Funcs_R4.c
@@ -48,7 +48,8 @@ extern "C" {
   }
 
   int MF_RegionID_R4(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_R4 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_R4 *) f->adj)->fregions[i];
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_R4(MFace_ptr f, MRegion_ptr r, int side) {
diff --git a/src/base/MVertex_F4.c b/src/base/MVertex_F4.c
index 1b3c1d5..c56811b 100644
--- a/src/base/MVertex_F4.c
+++ b/src/base/MVertex_F4.c
@@ -75,8 +75,8 @@ extern "C" {
 #endif
     
     vfaces = MV_Faces_F4(v);
-    nf = List_Num_Entries(vfaces);
-    List_Delete(vfaces);
+    nf = vfaces ? List_Num_Entries(vfaces) : 0;
+    if (vfaces) List_Delete(vfaces);
     return nf;
   }
 
@@ -91,8 +91,8 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F4(v);
-    nr = List_Num_Entries(vregions);
-    List_Delete(vregions);
+    nr = vregions ? List_Num_Entries(vregions) : 0;
+    if (vregions) List_Delete(vregions);
     return nr;
   }
 
-- 
2.43.0


From 20c416c859cddbddb0a183b0b64eae13639888d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 08/60] fix: MF_RegionIDs (F4) crashed on a face without
 regions

---
 src/base/MF_Region_Funcs_F2F4.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/base/MF_Region_Funcs_F2F4.c b/src/base/MF_Region_Funcs_F2F4.c
index 08bec49..8a34fca 100644
--- a/src/base/MF_Region_Funcs_F2F4.c
+++ b/src/base/MF_Region_Funcs_F2F4.c
@@ -57,10 +57,14 @@ extern "C" {
   void MF_RegionIDs_F2F4(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_F2F4(f);
-    *nfr = List_Num_Entries(fregs);
-    for (i = 0; i < *nfr; i++)
-      fregids[i] = MEnt_ID(List_Entry(fregs,i));
-    List_Delete(fregs);
+    if (fregs) {
+      *nfr = List_Num_Entries(fregs);
+      for (i = 0; i < *nfr; i++)
+        fregids[i] = MEnt_ID(List_Entry(fregs,i));
+      List_Delete(fregs);
+    }
+    else
+      *nfr = 0;
   }
 
   MRegion_ptr MF_Region_F2F4(MFace_ptr f, int ir) {
-- 
2.43.0


From b547d8371d16ebc3b0b34c2ac13fba6e5401523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 09/60] fix: deleting a face in the F4 representation left its
 edges pointing to the freed face

---
 src/base/MFace_F4.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/base/MFace_F4.c b/src/base/MFace_F4.c
index 64a0b48..8486de2 100644
--- a/src/base/MFace_F4.c
+++ b/src/base/MFace_F4.c
@@ -28,6 +28,16 @@ extern "C" {
 
   void MF_Delete_F4(MFace_ptr f, int keep) {
     MFace_Adj_F2F4 *adj;
+    int i, ne;
+
+    if (MEnt_Dim((MEntity_ptr) f) != MDELETED) { /* if face hasnt been temporarily deleted */
+      adj = (MFace_Adj_F2F4 *) f->adj;
+      if (adj && adj->fedges) {
+	ne = List_Num_Entries(adj->fedges);
+	for (i = 0; i < ne; i++)
+	  ME_Rem_Face(List_Entry(adj->fedges,i),f);
+      }
+    }
 
     if (!keep) {
       adj = (MFace_Adj_F2F4 *) f->adj;
@@ -40,7 +50,15 @@ extern "C" {
   }
 
   void MF_Restore_F4(MFace_ptr f) {
+    MFace_Adj_F2F4 *adj;
+    int i, ne;
+
     MEnt_Set_Dim((MEntity_ptr) f,MFACE);
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+    ne = List_Num_Entries(adj->fedges);
+    for (i = 0; i < ne; i++)
+      ME_Add_Face(List_Entry(adj->fedges,i),f);
   }
 
   void MF_Destroy_For_MESH_Delete_F4(MFace_ptr f) {
-- 
2.43.0


From 63414ffa834d025076ad3fed5facc37b0e6df239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 10/60] fix: regions were never connected to their edges in the
 F4 representation, so upward queries found no regions

---
 src/base/MR_Face_Funcs_FNR3R4.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 1883caa..a5eede5 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -96,6 +96,14 @@ extern "C" {
 
       if (MEnt_RepType((MEntity_ptr) r) != F4) 
 	MF_Add_Region(rfaces[i],r,!dirs[i]);
+      else {
+	/* In this representation, edges know the regions using them */
+	List_ptr fedges = MF_Edges(rfaces[i],1,0);
+	int ie, ne = List_Num_Entries(fedges);
+	for (ie = 0; ie < ne; ie++)
+	  ME_Add_Region(List_Entry(fedges,ie),r);
+	List_Delete(fedges);
+      }
     }
 
     MR_Update_ElementType_FNR3R4(r);
-- 
2.43.0


From 5b8d0ab1aeef4acf5d3c9b4e89f6d15c47454021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 11/60] fix: MF_Rem_Edge (F4) did not move the direction of the
 edge after the removed one

---
 src/base/MF_Edge_Funcs_F2F4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index 7024632..8e82d8e 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -169,8 +169,9 @@ extern "C" {
     List_Remi(adj->fedges,eindex);
 
     /* Move the remaining bits to the right */
-    int k, dir;
-    for (k = eindex+1; k < ne-1; k++) {
+    int k;
+    long long dir;
+    for (k = eindex; k < ne-1; k++) {
       /* set bit k to 0 */
       adj->edirs = adj->edirs & ~(1UL<<k);
 
-- 
2.43.0


From 17385e2ab017304de698e8673aae00d09f955231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 12/60] fix: MV_Faces (F4) missed faces without regions at
 edges that also have regions

---
 src/base/MVertex_F4.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/base/MVertex_F4.c b/src/base/MVertex_F4.c
index c56811b..74243db 100644
--- a/src/base/MVertex_F4.c
+++ b/src/base/MVertex_F4.c
@@ -208,25 +208,24 @@ extern "C" {
 	}
 	List_Delete(eregions);
       }
-      else {
-	/* perhaps the edge has boundary faces (not connected to regions) */
-	efaces = ME_Faces(edge);
-	if (efaces) {
-	  nf = List_Num_Entries(efaces);
+
+      /* perhaps the edge has faces not connected to regions */
+      efaces = ME_Faces(edge);
+      if (efaces) {
+	nf = List_Num_Entries(efaces);
 	  
-	  for (k = 0; k < nf; k++) {
-	    face = List_Entry(efaces,k);
-            int fmarked;
-            fmarked = List_Contains(vfaces,face);
-            if (!fmarked) {
-	      if (MF_UsesEntity(face,(MEntity_ptr) v,0)) {
-		List_Add(vfaces,face);
-		n++;
-	      }
+	for (k = 0; k < nf; k++) {
+	  face = List_Entry(efaces,k);
+          int fmarked;
+          fmarked = List_Contains(vfaces,face);
+          if (!fmarked) {
+	    if (MF_UsesEntity(face,(MEntity_ptr) v,0)) {
+	      List_Add(vfaces,face);
+	      n++;
 	    }
 	  }
-	  List_Delete(efaces);
 	}
+	List_Delete(efaces);
       }
     }
     if (n > 0)
-- 
2.43.0


From 3a6ab7b73f92446f806d7da8cacf605d05637c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 13/60] fix: MF_Region (F4) returned the region on the other
 side of the face

---
 src/base/MF_Region_Funcs_F2F4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MF_Region_Funcs_F2F4.c b/src/base/MF_Region_Funcs_F2F4.c
index 8a34fca..0d90a6d 100644
--- a/src/base/MF_Region_Funcs_F2F4.c
+++ b/src/base/MF_Region_Funcs_F2F4.c
@@ -91,7 +91,7 @@ extern "C" {
       for (i = 0; i < nr; i++) {
 	r = List_Entry(eregs,i);
 	fdir = MR_FaceDir(r,f);
-	if (fdir == !dir) {
+	if (fdir == dir) {
 	  r1 = r;
 	  break;
 	}
-- 
2.43.0


From 27b5db07869e515721330a0186e812499beaa51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 14/60] fix: MSet_Add, MSet_ChknAdd, MSet_Insert and
 MSet_Inserti returned the internal list instead of the set

---
 src/base/MSet.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index d703614..474c6fa 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -77,20 +77,22 @@ extern "C" {
   }
 
   MSet_ptr    MSet_Add(MSet_ptr set, void *entry) {
-    return List_Add(set->entlist,entry);
+    List_Add(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_ChknAdd(MSet_ptr set, void *entry) {
-    return List_ChknAdd(set->entlist,entry);
+    List_ChknAdd(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_Insert(MSet_ptr set, void *nuentry, void *b4entry) {
-    return List_Insert(set->entlist,nuentry,b4entry);
+    return List_Insert(set->entlist,nuentry,b4entry) ? set : NULL;
   }
 
 
   MSet_ptr    MSet_Inserti(MSet_ptr set, void *nuentry, int i) {
-    return List_Inserti(set->entlist,nuentry,i);
+    return List_Inserti(set->entlist,nuentry,i) ? set : NULL;
   }
 
   int         MSet_Rem(MSet_ptr set, void *entry) {
-- 
2.43.0


From ec86ee75454a6103fbf2ca3ec1169bdde56fa911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 15/60] fix: MSet_Rename wrote past the end of the old name

---
 src/base/MSet.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index 474c6fa..f6c255e 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -58,7 +58,10 @@ extern "C" {
   }
 
   void MSet_Rename(MSet_ptr set, char *newname) {
-    strcpy(set->name,newname);
+    char *name = (char *) malloc((strlen(newname)+1)*sizeof(char));
+    strcpy(name,newname);
+    free(set->name);
+    set->name = name;
   }
 
   MType MSet_EntDim(MSet_ptr set) {
-- 
2.43.0


From b894c586489c6545165db2fbd0e6ad54dbbca5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 16/60] fix: MSet_Cat was defined under another name and did
 not compare the entity types of the sets

---
 src/base/MSet.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index f6c255e..b890391 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -147,10 +147,10 @@ extern "C" {
   }
 
 
-  MSet_ptr    MSets_Cat(MSet_ptr dest, MSet_ptr src) {    
+  MSet_ptr    MSet_Cat(MSet_ptr dest, MSet_ptr src) {    
     if (MSet_Mesh(dest) != MSet_Mesh(src) ||
-	MSet_EntDim(dest) != MSet_EntDim(dest)) {
-      MSTK_Report("MSets_Cat","MSets must belong to same mesh and have same type of entities",MSTK_FATAL);
+	MSet_EntDim(dest) != MSet_EntDim(src)) {
+      MSTK_Report("MSet_Cat","MSets must belong to same mesh and have same type of entities",MSTK_FATAL);
     }
 
     dest->entlist = List_Cat(dest->entlist, src->entlist);
-- 
2.43.0


From 7081c140ce77eced73be7cb0237ec095a50a5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 17/60] fix: an ID set by the user above all others could not
 be looked up and could be given out again

---
 include/MSTK_private.h |  1 +
 src/base/MEntity.c     | 15 +++++++++------
 src/base/Mesh.c        | 11 +++++++++++
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/MSTK_private.h b/include/MSTK_private.h
index 4cc3b9c..fd73ee0 100644
--- a/include/MSTK_private.h
+++ b/include/MSTK_private.h
@@ -42,6 +42,7 @@ typedef enum MDelType {MDELREGION=-40, MDELFACE=-30, MDELEDGE=-20, MDELVERTEX=-1
 /* THIS FILE HAS ADDITIONAL FUNCTIONS THAT THE NORMAL USER NEED NOT SEE */
 
   void       MESH_Reset_Cached_MaxIDs(Mesh_ptr mesh);
+  void       MESH_Raise_Cached_MaxID(Mesh_ptr mesh, MType mtype, int id);
 
   void       MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v);
   void       MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e);
diff --git a/src/base/MEntity.c b/src/base/MEntity.c
index 94c7d90..aa7b628 100644
--- a/src/base/MEntity.c
+++ b/src/base/MEntity.c
@@ -126,13 +126,16 @@ extern "C" {
     int orig_id = ent->entdat.id;
     ent->entdat.id = id;
 
-    /* if original ID was not zero, we are modifying the ID of
-     * entities after the fact and the entity lists will no longer
-     * have entries with ascending IDs */
-    if (orig_id) {
-      Mesh_ptr mesh = ent->entdat.mesh;
-      if (mesh)
+    Mesh_ptr mesh = ent->entdat.mesh;
+    if (mesh) {
+      /* if original ID was not zero, we are modifying the ID of
+       * entities after the fact and the entity lists will no longer
+       * have entries with ascending IDs */
+      if (orig_id)
         MESH_Flag_EntLists_As_Unsorted(mesh);
+
+      /* entities created later must not get this ID as well */
+      MESH_Raise_Cached_MaxID(mesh, ent->entdat.dim, id);
     }
   }
 
diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 2280cd6..6c46347 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -1106,6 +1106,17 @@ void MESH_Rem_Region(Mesh_ptr mesh, MRegion_ptr r){
   return;
 }    
 
+/* Account for an entity whose ID is larger than all others */
+void MESH_Raise_Cached_MaxID(Mesh_ptr mesh, MType mtype, int id) {
+  switch (mtype) {
+  case MVERTEX: if (id > mesh->max_vid) mesh->max_vid = id; break;
+  case MEDGE: if (id > mesh->max_eid) mesh->max_eid = id; break;
+  case MFACE: if (id > mesh->max_fid) mesh->max_fid = id; break;
+  case MREGION: if (id > mesh->max_rid) mesh->max_rid = id; break;
+  default: break;
+  }
+}
+
 /* Reset the max IDs of entities cached in the mesh data structure
    Necessary after MESH has been modified and then renumbered for IDs
    to be contiguous */
-- 
2.43.0


From 9800e0b31551f832bc7551d028692e57b032ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 18/60] fix: lookup by ID missed restored entities when the
 fast search was enabled

---
 src/base/Mesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 6c46347..bf4cc44 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -853,6 +853,8 @@ void MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
     (mesh->max_vid)++;
     MV_Set_ID(v,mesh->max_vid);
   }
+  else  /* Restored entity, out of order at the end of the list */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }
 
 void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
@@ -869,6 +871,8 @@ void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
     (mesh->max_eid)++;
     ME_Set_ID(e,mesh->max_eid);
   }
+  else  /* Restored entity, out of order at the end of the list */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
@@ -893,6 +897,8 @@ void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
     (mesh->max_fid)++;
     MF_Set_ID(f,mesh->max_fid);
   }
+  else  /* Restored entity, out of order at the end of the list */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
@@ -906,6 +912,8 @@ void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
     (mesh->max_rid)++;
     MR_Set_ID(r,mesh->max_rid);
   }
+  else  /* Restored entity, out of order at the end of the list */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
-- 
2.43.0


From 155ac049deebc1388c23811e95291cc2ec031b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:02 +0000
Subject: [PATCH 19/60] fix: lookup by local ID crashed after a ghost entity
 was deleted

---
 src/base/Mesh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index bf4cc44..5cb0c47 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -2176,6 +2176,7 @@ void MESH_Rem_GhostVertex(Mesh_ptr mesh, MVertex_ptr v) {
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in mesh vertex list",MSTK_FATAL);
 
   mesh->nv = List_Num_Entries(mesh->mvertex);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 
   fnd = List_RemSorted(mesh->ghvertex,v,&(MV_GlobalID));
   if (!fnd)
@@ -2213,6 +2214,7 @@ void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in mesh edge list",MSTK_FATAL);
 
   mesh->ne = List_Num_Entries(mesh->medge);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 
   fnd = List_RemSorted(mesh->ghedge,e,&(ME_GlobalID));
   if (!fnd)
@@ -2250,6 +2252,7 @@ void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
     MSTK_Report("MESH_Rem_GhostFace","Face not found in mesh face list",MSTK_FATAL);
 
   mesh->nf = List_Num_Entries(mesh->mface);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 
   fnd = List_RemSorted(mesh->ghface,f,&(MF_GlobalID));
   if (!fnd)
@@ -2286,6 +2289,7 @@ void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in mesh region list",MSTK_FATAL);
 
   mesh->nr = List_Num_Entries(mesh->mregion);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 
   fnd = List_RemSorted(mesh->ghregion,r,&(MR_GlobalID));
   if (!fnd)
-- 
2.43.0


From 91607b8491c14300380a74abadf660780053172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 20/60] fix: fast lookup by ID crashed when it was enabled
 after all entities of a kind had been deleted

---
 src/base/Mesh.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 5cb0c47..4676f1e 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -664,21 +664,21 @@ void MESH_Flag_EntLists_As_Unsorted(Mesh_ptr mesh) {
 void MESH_Enable_LocalIDSearch(Mesh_ptr mesh) {
   if (mesh->lidlists_sorted) return;
 
-  if (mesh->nv) {
+  if (mesh->mvertex) {
     List_Compress(mesh->mvertex);  // can't sort list with gaps
     List_Sort(mesh->mvertex, mesh->nv, sizeof(MVertex_ptr), compareID);
   }
-  if (mesh->ne) {
+  if (mesh->medge) {
     List_Compress(mesh->medge);  // can't sort list with gaps
     List_Sort(mesh->medge, mesh->ne, sizeof(MEdge_ptr), compareID);
   }
 
-  if (mesh->nf) {
+  if (mesh->mface) {
     List_Compress(mesh->mface);  // can't sort list with gaps
     List_Sort(mesh->mface, mesh->nf, sizeof(MFace_ptr), compareID);
   }
 
-  if (mesh->nr) {
+  if (mesh->mregion) {
     List_Compress(mesh->mregion);  // can't sort list with gaps
     List_Sort(mesh->mregion, mesh->nr, sizeof(MRegion_ptr), compareID);
   }
-- 
2.43.0


From d8c4f1ed39a51ce3dc1b2a00427ff71898eebbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 21/60] fix: directions of edges from the 32nd on were lost or
 corrupted

---
 src/base/MF_Edge_Funcs_F1F3.c | 12 ++++++------
 src/base/MF_Edge_Funcs_F2F4.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F1F3.c b/src/base/MF_Edge_Funcs_F1F3.c
index 2ff110e..3c6f0e2 100644
--- a/src/base/MF_Edge_Funcs_F1F3.c
+++ b/src/base/MF_Edge_Funcs_F1F3.c
@@ -131,7 +131,7 @@ extern "C" {
 		    "Face and edge belong to different meshes",MSTK_FATAL);
 #endif
 
-      adj->edirs = adj->edirs | (dir[i] << i);
+      adj->edirs = adj->edirs | ((unsigned long long) dir[i] << i);
       List_Add(adj->fedges,e[i]);
       ME_Add_Face(e[i],f);
     }
@@ -179,7 +179,7 @@ extern "C" {
       dir = (adj->edirs>>(k+1)) & 1UL;
 
       /* move bit k+1 to k'th position */
-      adj->edirs = adj->edirs | (dir<<k);
+      adj->edirs = adj->edirs | ((unsigned long long) dir<<k);
     }
 
     ne--;
@@ -262,7 +262,7 @@ extern "C" {
       k = (i+j)%ne; 
       List_Replacei(adj->fedges,k,newedges[j]);		      
       adj->edirs = (adj->edirs & ~(1UL<<k)); /* set bit k to 0 */
-      adj->edirs = (adj->edirs | (newdirs[j]<<k)); /* set to dir */
+      adj->edirs = (adj->edirs | ((unsigned long long) newdirs[j]<<k)); /* set to dir */
     }
 
 
@@ -288,12 +288,12 @@ extern "C" {
 	  dir = (adj->edirs>>k) & 1UL;
 
 	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | (dir<<(k+1));	
+	  adj->edirs = adj->edirs | ((unsigned long long) dir<<(k+1));	
 	}
 
 	/* set bit j according to input */
 	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
+	adj->edirs = adj->edirs | ((unsigned long long) newdirs[j]<<(i+j)); /* set to newdir */
 
 	ne++;
       }
@@ -317,7 +317,7 @@ extern "C" {
 	  dir = (adj->edirs>>(k+1)) & 1UL;
 
 	  /* move bit k+1 to k'th position */
-	  adj->edirs = adj->edirs | (dir<<k);
+	  adj->edirs = adj->edirs | ((unsigned long long) dir<<k);
 	}
 
 	ne--;
diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index 8e82d8e..09ee4fe 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -131,7 +131,7 @@ extern "C" {
 		    "Face and edge belong to different meshes",MSTK_FATAL);
 #endif
 
-      adj->edirs = adj->edirs | (dir[i] << i);
+      adj->edirs = adj->edirs | ((unsigned long long) dir[i] << i);
       List_Add(adj->fedges,e[i]);
       ME_Add_Face(e[i],f);
     }
@@ -179,7 +179,7 @@ extern "C" {
       dir = (adj->edirs>>(k+1)) & 1UL;
 
       /* move bit k+1 to k'th position */
-      adj->edirs = adj->edirs | (dir<<k);
+      adj->edirs = adj->edirs | ((unsigned long long) dir<<k);
     }
 
     ne--;
@@ -261,7 +261,7 @@ extern "C" {
       k = (i+j)%ne; 
       List_Replacei(adj->fedges,k,newedges[j]);		      
       adj->edirs = (adj->edirs & ~(1UL<<k)); /* set bit k to 0 */
-      adj->edirs = (adj->edirs | (newdirs[j]<<k)); /* set to dir */
+      adj->edirs = (adj->edirs | ((unsigned long long) newdirs[j]<<k)); /* set to dir */
     }
 
 
@@ -287,12 +287,12 @@ extern "C" {
 	  dir = (adj->edirs>>k) & 1UL;
 
 	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | (dir<<(k+1));	
+	  adj->edirs = adj->edirs | ((unsigned long long) dir<<(k+1));	
 	}
 
 	/* set bit j according to input */
 	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
+	adj->edirs = adj->edirs | ((unsigned long long) newdirs[j]<<(i+j)); /* set to newdir */
 
 	ne++;
       }
@@ -316,7 +316,7 @@ extern "C" {
 	  dir = (adj->edirs>>(k+1)) & 1UL;
 
 	  /* move bit k+1 to k'th position */
-	  adj->edirs = adj->edirs | (dir<<k);
+	  adj->edirs = adj->edirs | ((unsigned long long) dir<<k);
 	}
 
 	ne--;
-- 
2.43.0


From 186eeaa029ed23032c24b5198cd7c69e5a19ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 22/60] fix: MF_Set_Vertices overran its arrays for faces with
 more than 30 vertices although faces store 64 edge directions

---
 include/MSTK_defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MSTK_defines.h b/include/MSTK_defines.h
index f5006e9..447068f 100644
--- a/include/MSTK_defines.h
+++ b/include/MSTK_defines.h
@@ -35,7 +35,7 @@ extern "C" {
    polyhedron is determined by how much space we have to store their
    directions */
 
-#define MAXPV2 30
+#define MAXPV2 64
 #define MAXPV3 200
 #define MAXPF3 16*(8*sizeof(unsigned int))  /* Actually it is unlimited */
 
-- 
2.43.0


From 664e4cb770166a2eb161c37d3c5ba56f968fdd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 23/60] fix: MF_Replace_Edges built broken loops when several
 edges were removed, when the edges were listed against the face direction or
 spanned its start vertex

---
 src/base/MF_Edge_Funcs_F1F3.c | 82 ++++++++++++++---------------------
 src/base/MF_Edge_Funcs_F2F4.c | 82 ++++++++++++++---------------------
 2 files changed, 66 insertions(+), 98 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F1F3.c b/src/base/MF_Edge_Funcs_F1F3.c
index 3c6f0e2..003602e 100644
--- a/src/base/MF_Edge_Funcs_F1F3.c
+++ b/src/base/MF_Edge_Funcs_F1F3.c
@@ -268,18 +268,17 @@ extern "C" {
 
 
     if (nold < nnu) {
-      /* Insert the rest of the nuedges at the right place */
+      /* Insert the rest of the nuedges after the last replaced edge */
 
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
+      int ipos = (i+ncom-1)%ne + 1;
+      for (j = ncom; j < nnu; j++, ipos++) {
+	List_Inserti(adj->fedges,newedges[j],ipos);
 
-      
-	/* Move the direction bits after the (i+ncom)'th bit to the
-	 left by (nnu-ncom) spaces and insert the direction bits for
-	 the rest of the inserted edges */
+	/* Move the direction bits from the ipos'th bit to the left by
+	   one and set the ipos'th bit to the direction of the
+	   inserted edge */
 
-	
-	for (k = ne-1; k >= i+j; k--) {
+	for (k = ne-1; k >= ipos; k--) {
 
 	  /* set bit k+1 to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
@@ -288,28 +287,26 @@ extern "C" {
 	  dir = (adj->edirs>>k) & 1UL;
 
 	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | ((unsigned long long) dir<<(k+1));	
+	  adj->edirs = adj->edirs | ((unsigned long long) dir<<(k+1));
 	}
 
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | ((unsigned long long) newdirs[j]<<(i+j)); /* set to newdir */
+	adj->edirs = adj->edirs & ~(1UL<<ipos); /* Set bit to 0 */
+	adj->edirs = adj->edirs | ((unsigned long long) newdirs[j]<<ipos); /* set to newdir */
 
 	ne++;
       }
 
     }
     else {
-      /* Delete the remaining old edges */
+      /* Delete the remaining old edges and their direction bits. They
+	 follow the last replaced edge and may continue at the start of
+	 the list */
 
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
+      int ipos = (i+ncom)%ne;
+      for (j = ncom; j < nold; j++) {
+	List_Remi(adj->fedges,ipos);
 
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
-      
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
+	for (k = ipos; k < ne-1; k++) {
 	  /* set bit k to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<k);
 
@@ -321,6 +318,8 @@ extern "C" {
 	}
 
 	ne--;
+	if (ipos == ne)
+	  ipos = 0;
       }
     }
       
@@ -344,7 +343,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F1F3(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F1F3 *adj;
     MEdge_ptr fedge;
 
@@ -373,39 +372,24 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
+    /* The start index is that of the edge whose predecessor in the
+       face is not one of the old edges. The old edges may be listed
+       in the direction of the face or against it, and they may span
+       the start vertex in the face vertex cycle. */
 
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
+    istart = eindex[0];
+    for (i = 0; i < nold; i++) {
+      int prev = (eindex[i]+ne-1)%ne;
 
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
+      for (j = 0, found = 0; j < nold; j++)
+	if (eindex[j] == prev) found = 1;
 
-	istart = eindex[j];
+      if (!found) {
+	istart = eindex[i];
 	break;
       }
-      else
-	nxtidx++;
     }
-      
-	  
+
     MF_Replace_Edges_i_F1F3(f, nold, istart, nnu, nuedges);
 
     free(eindex);
diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index 09ee4fe..aba3425 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -267,18 +267,17 @@ extern "C" {
 
 
     if (nold < nnu) {
-      /* Insert the rest of the nuedges at the right place */
+      /* Insert the rest of the nuedges after the last replaced edge */
 
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
+      int ipos = (i+ncom-1)%ne + 1;
+      for (j = ncom; j < nnu; j++, ipos++) {
+	List_Inserti(adj->fedges,newedges[j],ipos);
 
-      
-	/* Move the direction bits after the (i+ncom)'th bit to the
-	 left by (nnu-ncom) spaces and insert the direction bits for
-	 the rest of the inserted edges */
+	/* Move the direction bits from the ipos'th bit to the left by
+	   one and set the ipos'th bit to the direction of the
+	   inserted edge */
 
-	
-	for (k = ne-1; k >= i+j; k--) {
+	for (k = ne-1; k >= ipos; k--) {
 
 	  /* set bit k+1 to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
@@ -287,28 +286,26 @@ extern "C" {
 	  dir = (adj->edirs>>k) & 1UL;
 
 	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | ((unsigned long long) dir<<(k+1));	
+	  adj->edirs = adj->edirs | ((unsigned long long) dir<<(k+1));
 	}
 
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | ((unsigned long long) newdirs[j]<<(i+j)); /* set to newdir */
+	adj->edirs = adj->edirs & ~(1UL<<ipos); /* Set bit to 0 */
+	adj->edirs = adj->edirs | ((unsigned long long) newdirs[j]<<ipos); /* set to newdir */
 
 	ne++;
       }
 
     }
     else {
-      /* Delete the remaining old edges */
+      /* Delete the remaining old edges and their direction bits. They
+	 follow the last replaced edge and may continue at the start of
+	 the list */
 
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
+      int ipos = (i+ncom)%ne;
+      for (j = ncom; j < nold; j++) {
+	List_Remi(adj->fedges,ipos);
 
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
-      
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
+	for (k = ipos; k < ne-1; k++) {
 	  /* set bit k to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<k);
 
@@ -320,6 +317,8 @@ extern "C" {
 	}
 
 	ne--;
+	if (ipos == ne)
+	  ipos = 0;
       }
     }
       
@@ -343,7 +342,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F2F4(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F2F4 *adj;
     MEdge_ptr fedge;
 
@@ -372,39 +371,24 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
+    /* The start index is that of the edge whose predecessor in the
+       face is not one of the old edges. The old edges may be listed
+       in the direction of the face or against it, and they may span
+       the start vertex in the face vertex cycle. */
 
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
+    istart = eindex[0];
+    for (i = 0; i < nold; i++) {
+      int prev = (eindex[i]+ne-1)%ne;
 
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
+      for (j = 0, found = 0; j < nold; j++)
+	if (eindex[j] == prev) found = 1;
 
-	istart = eindex[j];
+      if (!found) {
+	istart = eindex[i];
 	break;
       }
-      else
-	nxtidx++;
     }
-      
-	  
+
     MF_Replace_Edges_i_F2F4(f, nold, istart, nnu, nuedges);
 
     free(eindex);
-- 
2.43.0


From 20610d27c950b4ee77c82ab0b916413c3814623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:04 +0000
Subject: [PATCH 24/60] fix: regions kept their element type when edges of
 their faces were replaced or removed, so their vertices were found by the
 wrong template

---
 src/base/MFace.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/base/MFace.c b/src/base/MFace.c
index 757c30e..06cc0a3 100644
--- a/src/base/MFace.c
+++ b/src/base/MFace.c
@@ -132,21 +132,38 @@ extern "C" {
     (*MF_Set_Edges_jmp[RTYPE])(f,n,edges,dir);
   }
 
+  /* The type of a region depends on the number of edges of its faces */
+
+  static void MF_Update_RegionTypes(MFace_ptr f) {
+    int idx = 0;
+    MRegion_ptr r;
+    List_ptr fregs;
+
+    fregs = MF_Regions(f);
+    if (!fregs) return;
+    while ((r = List_Next_Entry(fregs,&idx)))
+      MR_Update_ElementType(r);
+    List_Delete(fregs);
+  }
+
   void MF_Rem_Edge(MFace_ptr f, MEdge_ptr edge) {
     RepType RTYPE = MEnt_RepType((MEntity_ptr) f);
     (*MF_Rem_Edge_jmp[RTYPE])(f,edge);
+    if (RTYPE == F1 || RTYPE == F4) MF_Update_RegionTypes(f);
   }
 
   void MF_Replace_Edges(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, 
 			MEdge_ptr *nuedges) {
     RepType RTYPE = MEnt_RepType((MEntity_ptr) f);
     (*MF_Replace_Edges_jmp[RTYPE])(f,nold,oldedges,nnu,nuedges);
+    if (nold != nnu && (RTYPE == F1 || RTYPE == F4)) MF_Update_RegionTypes(f);
   }
 
   void MF_Replace_Edges_i(MFace_ptr f, int nold, int i, int nnu, 
 			  MEdge_ptr *nuedges) {
     RepType RTYPE = MEnt_RepType((MEntity_ptr) f);
     (*MF_Replace_Edges_i_jmp[RTYPE])(f,nold,i,nnu,nuedges);
+    if (nold != nnu && (RTYPE == F1 || RTYPE == F4)) MF_Update_RegionTypes(f);
   }
 
   void MF_Set_Vertices(MFace_ptr f, int n, MVertex_ptr *verts) {
-- 
2.43.0


From 901972a1e6dc19668fba021430360117cea03dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:04 +0000
Subject: [PATCH 25/60] fix: edges did not learn (F4) of regions gained or lost
 when faces or edges are replaced, and MR_Replace_Faces mixed up face
 directions

---
 src/base/MF_Edge_Funcs_F2F4.c   | 36 +++++++++++-
 src/base/MR_Face_Funcs_FNR3R4.c | 97 +++++++++++++++++++++++----------
 2 files changed, 103 insertions(+), 30 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index aba3425..5feff67 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -142,7 +142,9 @@ extern "C" {
   /* Remove an edge from a face */
 
   void MF_Rem_Edge_F2F4(MFace_ptr f, MEdge_ptr remedge) {
-    int i, j, ne, eindex, found;
+    int i, j, ne, eindex, found, idx;
+    MRegion_ptr fr;
+    List_ptr fregs;
     MFace_Adj_F1F3 *adj;
 
     adj = (MFace_Adj_F1F3 *) f->adj;
@@ -166,6 +168,9 @@ extern "C" {
     }
 
 
+    /* Regions of the face (found through its edges) */
+    fregs = MF_Regions(f);
+
     List_Remi(adj->fedges,eindex);
 
     /* Move the remaining bits to the right */
@@ -189,6 +194,15 @@ extern "C" {
 
     ME_Rem_Face(remedge,f);
 
+    /* Edges also know the regions using them in this representation */
+    if (fregs) {
+      idx = 0;
+      while ((fr = List_Next_Entry(fregs,&idx)))
+	if (!MR_UsesEntity(fr,remedge,MEDGE))
+	  ME_Rem_Region(remedge,fr);
+      List_Delete(fregs);
+    }
+
   }
 
 
@@ -202,7 +216,9 @@ extern "C" {
     MFace_Adj_F2F4 *adj;
     MEdge_ptr *oldedges, *newedges;
     MVertex_ptr vold_0, vold_1, lastv;
-    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev;
+    MRegion_ptr fr;
+    List_ptr fregs;
+    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev, idx;
 
     adj = (MFace_Adj_F2F4 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
@@ -211,6 +227,9 @@ extern "C" {
       MSTK_Report("MF_Replace_Edge_i","No initial set of edges for face",
 		  MSTK_ERROR);
 
+    /* Regions of the face (found through the edges that are about to change) */
+    fregs = MF_Regions(f);
+
     oldedges = (MEdge_ptr *) malloc(nold*sizeof(MEdge_ptr));
     olddirs  = (int *) malloc(nold*sizeof(int));
     for (j = 0; j < nold; j++) {
@@ -330,6 +349,19 @@ extern "C" {
       ME_Add_Face(newedges[j],f);
     }
 
+    /* Edges also know the regions using them in this representation */
+    if (fregs) {
+      idx = 0;
+      while ((fr = List_Next_Entry(fregs,&idx))) {
+	for (j = 0; j < nold; j++)
+	  if (!MR_UsesEntity(fr,oldedges[j],MEDGE))
+	    ME_Rem_Region(oldedges[j],fr);
+	for (j = 0; j < nnu; j++)
+	  ME_Add_Region(newedges[j],fr);
+      }
+      List_Delete(fregs);
+    }
+
     free(oldedges);
     free(olddirs);
     free(newedges);
diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index a5eede5..670f07b 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -606,6 +606,29 @@ extern "C" {
 
 
 
+  /* In the F4 representation, edges also know the regions using them.
+     Update this for the edges of a face that the region gained or lost */
+
+  static void MR_Update_EdgeRegions_FNR3R4(MRegion_ptr r, MFace_ptr f) {
+    int i, ne;
+    MEdge_ptr e;
+    List_ptr fedges;
+
+    if (MEnt_RepType((MEntity_ptr) r) != F4) return;
+
+    fedges = MF_Edges(f,1,0);
+    ne = List_Num_Entries(fedges);
+    for (i = 0; i < ne; i++) {
+      e = List_Entry(fedges,i);
+      if (MR_UsesEntity(r,e,MEDGE))
+        ME_Add_Region(e,r);
+      else
+        ME_Rem_Region(e,r);
+    }
+    List_Delete(fedges);
+  }
+
+
   void MR_Rem_Face_FNR3R4(MRegion_ptr r, MFace_ptr remface) {
     int i, j, k, j1, k1, nf, findex, dir, found;
     MRegion_Adj_FN *adj;
@@ -658,7 +681,19 @@ extern "C" {
     /* Tell face that it is no longer bounding this region */
 
     MF_Rem_Region(remface,r);
+    MR_Update_EdgeRegions_FNR3R4(r,remface);
+
+    MR_Update_ElementType_FNR3R4(r);
+
+  }
+
+
+  static void MR_Put_FaceDirBit_FNR3R4(MRegion_Adj_FN *adj, int i, int dir) {
+    int j = i/(8*sizeof(unsigned int));
+    int k = i%(8*sizeof(unsigned int));
 
+    adj->fdirs[j] = (adj->fdirs[j] & ~(1u<<k)); /* set bit i to 0 */
+    adj->fdirs[j] = (adj->fdirs[j] | ((unsigned int) dir<<k)); /* set to dir*/
   }
 
 
@@ -697,45 +732,49 @@ extern "C" {
     kf = 0;
     for (jf = 0; jf < nold; jf++) {
       f = oldf[jf];
-      for (i = 0; i < nf; i++) {
-        if (f == (MFace_ptr) List_Entry(adj->rfaces,i)) {
-          if (kf < nnew) { 
+      for (i = 0; i < nf; i++)
+        if (f == (MFace_ptr) List_Entry(adj->rfaces,i)) 
+          break;
+      if (i == nf) continue; /* not a face of this region */
 
-            /* if there are new faces remaining to be added replace the 
-               old face with the new face - cheap to do */
+      MF_Rem_Region(f,r);
 
-            List_Replacei(adj->rfaces,i,nuf[kf]);
-            MR_Set_FaceDir_i(r,i,nudir[kf]);
+      if (kf < nnew) { 
 
-            MF_Add_Region(nuf[kf],r,!nudir[kf]);
-            kf++;
-          }
-          else {
+        /* if there are new faces remaining to be added replace the 
+           old face with the new face - cheap to do */
 
-            /* no more new faces to put in place of old face - just remove
-               it from the list (this shifts all the subsequent faces up)
-               Similarly shift all the face dirs up */
+        List_Replacei(adj->rfaces,i,nuf[kf]);
+        MR_Put_FaceDirBit_FNR3R4(adj,i,nudir[kf]);
+        kf++;
+      }
+      else {
 
-            for (ii = i; ii < nf-1; ii++)
-              if (MR_FaceDir_i(r,ii) != MR_FaceDir_i(r,ii+1))
-                MR_Set_FaceDir_i(r,ii,MR_FaceDir_i(r,ii+1));
-            List_Remi(adj->rfaces,i);
-          }
-          
-          MF_Rem_Region(f,r);
-        }
+        /* no more new faces to put in place of old face - just remove
+           it from the list (this shifts all the subsequent faces up)
+           Similarly shift all the face dirs up */
+
+        for (ii = i; ii < nf-1; ii++)
+          MR_Put_FaceDirBit_FNR3R4(adj,ii,MR_FaceDir_i(r,ii+1));
+        List_Remi(adj->rfaces,i);
+        nf--;
       }
     }
 
     /* If there are more new faces than old ones, add the left overs */
-    if (kf < nnew) {
-      for (jf = kf; jf < nnew; jf++) {
-        List_Add(adj->rfaces,nuf[jf]);
-        MR_Set_FaceDir(r,nuf[jf],nudir[jf]);        
-        MF_Add_Region(nuf[jf],r,!nudir[jf]);
-      }
+    for (jf = kf; jf < nnew; jf++, nf++) {
+      List_Add(adj->rfaces,nuf[jf]);
+      MR_Put_FaceDirBit_FNR3R4(adj,nf,nudir[jf]);
     }
 
+    for (jf = 0; jf < nnew; jf++)
+      MF_Add_Region(nuf[jf],r,!nudir[jf]);
+
+    for (jf = 0; jf < nold; jf++)
+      MR_Update_EdgeRegions_FNR3R4(r,oldf[jf]);
+    for (jf = 0; jf < nnew; jf++)
+      MR_Update_EdgeRegions_FNR3R4(r,nuf[jf]);
+
     MR_Update_ElementType_FNR3R4(r);
 
   }
@@ -766,6 +805,8 @@ extern "C" {
 
     MF_Rem_Region(f,r);
     MF_Add_Region(nuf,r,!nudir);
+    MR_Update_EdgeRegions_FNR3R4(r,f);
+    MR_Update_EdgeRegions_FNR3R4(r,nuf);
 
     MR_Update_ElementType_FNR3R4(r);
   }
-- 
2.43.0


From 7a80cc9659d4aeea9530955e371955fb7ca1b9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:37 +0000
Subject: [PATCH 26/60] fix: polyhedra with the face counts of a prism or hex
 were taken for one, and edges outside the element misled the vertex and edge
 order of prisms and hexes

---
 src/base/MR_Edge_Funcs_FN.c       | 10 ++++---
 src/base/MR_Face_Funcs_FNR3R4.c   | 46 +++++++++++++++++++++++++++++--
 src/base/MR_Vertex_Funcs_FNR3R4.c |  3 +-
 3 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/src/base/MR_Edge_Funcs_FN.c b/src/base/MR_Edge_Funcs_FN.c
index 987a3b6..9412b79 100644
--- a/src/base/MR_Edge_Funcs_FN.c
+++ b/src/base/MR_Edge_Funcs_FN.c
@@ -129,7 +129,7 @@ extern "C" {
 	}
       }
       
-      if (nquads == 3 && ntris == 2) {
+      if (nquads == 3 && ntris == 2 && r->mrtype == PRISM) {
 
 	botfdir = MR_FaceDir_i(r,itri0); /* Sense in which face is used in region */
 	redges = MF_Edges(tri0,!botfdir,0);
@@ -149,7 +149,8 @@ extern "C" {
 	for (i = 0; i < 3; i++) {
 	  topvert = List_Entry(fverts,i);
 
-	  if ((latedge = MVs_CommonEdge(botvert,topvert))) {
+	  if ((latedge = MVs_CommonEdge(botvert,topvert)) &&
+	      MR_UsesEntity(r,latedge,MEDGE)) {
 	    found = 1;
 	    break;
 	  }
@@ -245,7 +246,7 @@ extern "C" {
 	}
       }
 
-      if (allquad) { /* Hex */
+      if (allquad && r->mrtype == HEX) { /* Hex */
 
 	n = 0;
 	
@@ -294,7 +295,8 @@ extern "C" {
 	for (i = 0; i < 4; i++) {
 	  topvert = List_Entry(fverts,i);
 
-	  if ((latedge = MVs_CommonEdge(botvert,topvert))) {
+	  if ((latedge = MVs_CommonEdge(botvert,topvert)) &&
+	      MR_UsesEntity(r,latedge,MEDGE)) {
 	    found = 1;
 	    break;
 	  }
diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 670f07b..359ed70 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -812,6 +812,22 @@ extern "C" {
   }
 
 
+  /* Number of common vertices of two faces */
+
+  static int MR_Num_CommonFaceVertices(MFace_ptr f1, MFace_ptr f2) {
+    int idx, n = 0;
+    MVertex_ptr v;
+    List_ptr fverts1 = MF_Vertices(f1,1,0), fverts2 = MF_Vertices(f2,1,0);
+
+    idx = 0;
+    while ((v = List_Next_Entry(fverts1,&idx)))
+      if (List_Contains(fverts2,v)) n++;
+
+    List_Delete(fverts1);
+    List_Delete(fverts2);
+    return n;
+  }
+
   void MR_Update_ElementType_FNR3R4(MRegion_ptr r) {
 
     int nf;
@@ -843,16 +859,21 @@ extern "C" {
       case 5: {
         int nquads = 0; 
         int ntris = 0;
+        MFace_ptr tri[5];
         
         for (i = 0; i < nf; i++) {
           int nv = MF_Num_Vertices(List_Entry(adj->rfaces,i));
           if (nv == 3)
-            ntris++;
+            tri[ntris++] = List_Entry(adj->rfaces,i);
           else if (nv == 4)
             nquads++;
         }
         
-        if (nquads == 3 && ntris == 2)
+        /* The triangles of a prism are opposite each other (unlike those
+           of, say, a pyramid with a hanging node on a lateral edge) */
+
+        if (nquads == 3 && ntris == 2 && 
+            MR_Num_CommonFaceVertices(tri[0],tri[1]) == 0)
           r->mrtype = PRISM;
         else if (nquads == 1 && ntris == 4)
           r->mrtype = PYRAMID;
@@ -869,6 +890,27 @@ extern "C" {
           }
         }
         
+        /* In a hex, every face shares two vertices each with four
+           others and none with the fifth */
+
+        if (allquad) {
+          int j;
+          for (i = 0; i < nf && allquad; i++) {
+            int nopp = 0;
+            for (j = 0; j < nf && allquad; j++) {
+              int ncom;
+              if (i == j) continue;
+              ncom = MR_Num_CommonFaceVertices(List_Entry(adj->rfaces,i),
+                                               List_Entry(adj->rfaces,j));
+              if (ncom == 0) 
+                nopp++;
+              else if (ncom != 2)
+                allquad = 0;
+            }
+            if (nopp != 1) allquad = 0;
+          }
+        }
+
         if (allquad)
           r->mrtype = HEX;
         else
diff --git a/src/base/MR_Vertex_Funcs_FNR3R4.c b/src/base/MR_Vertex_Funcs_FNR3R4.c
index 0cb77cb..65e6a2f 100644
--- a/src/base/MR_Vertex_Funcs_FNR3R4.c
+++ b/src/base/MR_Vertex_Funcs_FNR3R4.c
@@ -89,7 +89,8 @@ extern "C" {
       for (i = 0; i < 3; i++) {
         vert = List_Entry(fverts,i);
         
-        if (MVs_CommonEdge(rv0,vert)) {
+        edge = MVs_CommonEdge(rv0,vert);
+        if (edge && MR_UsesEntity(r,edge,MEDGE)) {
           List_Add(rvertices,vert);
           List_Add(rvertices,List_Entry(fverts,(i+1)%3));
           List_Add(rvertices,List_Entry(fverts,(i+2)%3));
-- 
2.43.0


From 036a9628114eb38aa55757d6eb3c2059219633b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:51 +0000
Subject: [PATCH 27/60] fix: deleting or restoring an entity whose vertices,
 edges or faces were never set dereferenced NULL

---
 src/base/MEdge_F1.c       | 4 ++--
 src/base/MEdge_F4.c       | 8 ++++----
 src/base/MFace_F1.c       | 2 +-
 src/base/MFace_F4.c       | 2 +-
 src/base/MRegion_F4.c     | 3 ++-
 src/base/MRegion_FNR3R4.c | 2 +-
 6 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/base/MEdge_F1.c b/src/base/MEdge_F1.c
index 8c81e95..bf04aad 100644
--- a/src/base/MEdge_F1.c
+++ b/src/base/MEdge_F1.c
@@ -45,8 +45,8 @@ extern "C" {
   void ME_Restore_F1(MEdge_ptr e) {
 
     MEnt_Set_Dim((MEntity_ptr) e,MEDGE);
-    MV_Add_Edge(e->vertex[0],e);
-    MV_Add_Edge(e->vertex[1],e);
+    if (e->vertex[0]) MV_Add_Edge(e->vertex[0],e);
+    if (e->vertex[1]) MV_Add_Edge(e->vertex[1],e);
   }
 
   void ME_Destroy_For_MESH_Delete_F1(MEdge_ptr e) {
diff --git a/src/base/MEdge_F4.c b/src/base/MEdge_F4.c
index 85b02a6..0899481 100644
--- a/src/base/MEdge_F4.c
+++ b/src/base/MEdge_F4.c
@@ -28,8 +28,8 @@ extern "C" {
     MEdge_Adj_F4 *adj;
 
     if (MEnt_Dim((MEntity_ptr) e) != MDELETED) { /* if edge hasnt been temporarily deleted */
-      MV_Rem_Edge(e->vertex[0],e);
-      MV_Rem_Edge(e->vertex[1],e);
+      if (e->vertex[0]) MV_Rem_Edge(e->vertex[0],e);
+      if (e->vertex[1]) MV_Rem_Edge(e->vertex[1],e);
     }
 
     if (!keep) {
@@ -46,8 +46,8 @@ extern "C" {
  
     MEnt_Set_Dim((MEntity_ptr) e,MEDGE);
 
-    MV_Add_Edge(e->vertex[0],e);
-    MV_Add_Edge(e->vertex[1],e);
+    if (e->vertex[0]) MV_Add_Edge(e->vertex[0],e);
+    if (e->vertex[1]) MV_Add_Edge(e->vertex[1],e);
   }
 
   void ME_Destroy_For_MESH_Delete_F4(MEdge_ptr e) {
diff --git a/src/base/MFace_F1.c b/src/base/MFace_F1.c
index a17cd30..e229ec6 100644
--- a/src/base/MFace_F1.c
+++ b/src/base/MFace_F1.c
@@ -66,7 +66,7 @@ extern "C" {
 
     adj = (MFace_Adj_F1F3 *) f->adj;
 
-    ne = List_Num_Entries(adj->fedges);
+    ne = adj->fedges ? List_Num_Entries(adj->fedges) : 0;
     for (i = 0; i < ne; i++) {
       e = List_Entry(adj->fedges,i);
       ME_Add_Face(e,f);
diff --git a/src/base/MFace_F4.c b/src/base/MFace_F4.c
index 8486de2..737f354 100644
--- a/src/base/MFace_F4.c
+++ b/src/base/MFace_F4.c
@@ -56,7 +56,7 @@ extern "C" {
     MEnt_Set_Dim((MEntity_ptr) f,MFACE);
 
     adj = (MFace_Adj_F2F4 *) f->adj;
-    ne = List_Num_Entries(adj->fedges);
+    ne = adj->fedges ? List_Num_Entries(adj->fedges) : 0;
     for (i = 0; i < ne; i++)
       ME_Add_Face(List_Entry(adj->fedges,i),f);
   }
diff --git a/src/base/MRegion_F4.c b/src/base/MRegion_F4.c
index 7e16fd5..09f1343 100644
--- a/src/base/MRegion_F4.c
+++ b/src/base/MRegion_F4.c
@@ -32,7 +32,7 @@ extern "C" {
     adj = (MRegion_Adj_FN *) r->adj;
 
     if (MEnt_Dim((MEntity_ptr) r) != MDELETED) { /* if regn hasnt been temporarily deleted */
-      if (adj) {
+      if (adj && adj->rfaces) {
 	idx = 0;
 	while ((f = List_Next_Entry(adj->rfaces,&idx))) {	  
 	  fedges = MF_Edges(f,1,0);
@@ -63,6 +63,7 @@ extern "C" {
     int j, idx, ne;
 
     adj = (MRegion_Adj_FN *) r->adj;
+    if (!adj->rfaces) return;
 
     idx = 0;
     while ((f = List_Next_Entry(adj->rfaces,&idx))) {
diff --git a/src/base/MRegion_FNR3R4.c b/src/base/MRegion_FNR3R4.c
index cf1b1a4..ebdc1af 100644
--- a/src/base/MRegion_FNR3R4.c
+++ b/src/base/MRegion_FNR3R4.c
@@ -62,7 +62,7 @@ extern "C" {
 
     adj = (MRegion_Adj_FN *) r->adj;
 
-    nf = List_Num_Entries(adj->rfaces);
+    nf = adj->rfaces ? List_Num_Entries(adj->rfaces) : 0;
     for (i = 0; i < nf; i++) {
       f = List_Entry(adj->rfaces,i);
  
-- 
2.43.0


From 20e954d83fb7c90f0a6873a5c67de5862882f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:51 +0000
Subject: [PATCH 28/60] fix: clearing a vector or tensor attribute copied from
 NULL; setting it again leaked the old value

---
 src/base/MAttrib.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/base/MAttrib.c b/src/base/MAttrib.c
index a97c74b..7aa8174 100644
--- a/src/base/MAttrib.c
+++ b/src/base/MAttrib.c
@@ -152,11 +152,14 @@ extern "C" {
       case VECTOR: {
         /* vectors are stored as pointers to data which needs to be
          * persistent - so copy the data into newly allocated space
-         * before storing */
+         * before storing; NULL clears the value to zero */
         
         int ncomp = MAttrib_Get_NumComps(attrib);
-        double *vval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(vval_copy, pval, ncomp*sizeof(double));
+        double *vval_copy = (double *) calloc(ncomp,sizeof(double));
+        if (pval)
+          memcpy(vval_copy, pval, ncomp*sizeof(double));
+        if (attins->att_val.pval)
+          free(attins->att_val.pval);
         attins->att_val.pval = vval_copy;
         break;
       }
@@ -166,8 +169,11 @@ extern "C" {
          * storing */
         
         int ncomp = MAttrib_Get_NumComps(attrib);
-        double *tval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(tval_copy, pval, ncomp*sizeof(double));
+        double *tval_copy = (double *) calloc(ncomp,sizeof(double));
+        if (pval)
+          memcpy(tval_copy, pval, ncomp*sizeof(double));
+        if (attins->att_val.pval)
+          free(attins->att_val.pval);
         attins->att_val.pval = tval_copy;
         break;
       }
-- 
2.43.0


From 2f85580d3804c09c2483703217f91c34289207c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:35 +0000
Subject: [PATCH 29/60] fix: MESH_ExportToExodusII kept its marker, or left its
 attribute ownedatt on the mesh, when called without a communicator

---
 src/io/MESH_ExportToExodusII.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 44d4f76..745faaa 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1665,8 +1665,7 @@ extern "C" {
     }
       
 
-#ifdef MSTK_HAVE_MPI
-    if (comm) {
+    if (nrall || nfall) {
 #ifdef MSTK_USE_MARKERS
       idx = 0;
       while ((mr = MESH_Next_Region(mesh,&idx)))
@@ -1686,7 +1685,6 @@ extern "C" {
       MAttrib_Delete(ownedatt);
 #endif
     }
-#endif
 
 
     idx = 0;
-- 
2.43.0


From 158484d1909adf39a92a06b990889624d598de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:11 +0000
Subject: [PATCH 30/60] fix: graph renumbering overran an array, exited on
 disconnected graphs and could leave nodes without a number

---
 src/util/Graph_renumber.c | 86 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 85 insertions(+), 1 deletion(-)

diff --git a/src/util/Graph_renumber.c b/src/util/Graph_renumber.c
index 0abb100..bef6bc0 100644
--- a/src/util/Graph_renumber.c
+++ b/src/util/Graph_renumber.c
@@ -27,6 +27,10 @@ void Graph_Assign_Numbers(int nnodes, int adj[], int nadj[], int offset[],
                           int n_beg, int n_end, int level[], int nodemap[]);
 
 
+static int Graph_Renumber_Connected(int nnodes, int nstart, int *nadj, int *adj, 
+                                    int *nodemap, int *depth, int *maxwidth);
+
+
 /* 
    Renumber nodes of a graph according to the Gibbs-Pool-Stockmeyer algorithm 
    with George-Liu modifications to find the pseudo-peripheral nodes
@@ -42,6 +46,77 @@ void Graph_Assign_Numbers(int nnodes, int adj[], int nadj[], int offset[],
 
 int Graph_Renumber_GPS(int nnodes, int nstart, int *nadj, int *adj, 
                        int *nodemap, int *depth, int *maxwidth) {
+  int i, j, k, seed, ncnodes, ncadj, nnew, cdepth, cwidth, status;
+  int *offset, *local, *cnodes, *cnadj, *cadj, *cmap;
+
+  *depth = 0;
+  *maxwidth = 0;
+  if (!nnodes) return 1;
+
+  offset = (int *) malloc((nnodes+1)*sizeof(int));
+  offset[0] = 0;
+  for (i = 0; i < nnodes; i++)
+    offset[i+1] = offset[i] + nadj[i];
+
+  local = (int *) malloc(nnodes*sizeof(int)); /* index in connected component */
+  for (i = 0; i < nnodes; i++) local[i] = -1;
+  cnodes = (int *) malloc(nnodes*sizeof(int)); /* nodes of the component */
+  cnadj = (int *) malloc(nnodes*sizeof(int));
+  cmap = (int *) malloc(nnodes*sizeof(int));
+  cadj = (int *) malloc((offset[nnodes]+1)*sizeof(int));
+
+  /* The algorithm works on connected graphs - Number each connected
+     component by itself starting with the one of the start node */
+
+  status = 1;
+  nnew = 0;
+  for (seed = -1; seed < nnodes; seed++) {
+    int cstart = (seed == -1) ? nstart : seed;
+
+    if (local[cstart] != -1) continue; /* already numbered */
+
+    cnodes[0] = cstart;
+    local[cstart] = 0;
+    ncnodes = 1;
+    ncadj = 0;
+    for (i = 0; i < ncnodes; i++) {
+      int node = cnodes[i];
+      cnadj[i] = nadj[node];
+      for (j = 0; j < nadj[node]; j++) {
+        k = adj[offset[node]+j];
+        if (local[k] == -1) {
+          local[k] = ncnodes;
+          cnodes[ncnodes++] = k;
+        }
+        cadj[ncadj++] = local[k];
+      }
+    }
+
+    status = Graph_Renumber_Connected(ncnodes, 0, cnadj, cadj, cmap, &cdepth, &cwidth) && status;
+
+    for (i = 0; i < ncnodes; i++)
+      nodemap[cnodes[i]] = nnew + cmap[i];
+    nnew += ncnodes;
+
+    *depth = (cdepth > *depth) ? cdepth : *depth;
+    *maxwidth = (cwidth > *maxwidth) ? cwidth : *maxwidth;
+  }
+
+  free(offset);
+  free(local);
+  free(cnodes);
+  free(cnadj);
+  free(cmap);
+  free(cadj);
+
+  return status;
+}
+
+
+/* Same for a connected graph */
+
+static int Graph_Renumber_Connected(int nnodes, int nstart, int *nadj, int *adj, 
+                                    int *nodemap, int *depth, int *maxwidth) {
   int i, j, k, d, l, n_1, n_k, nnew, ncset;
   int curlev, curnode;
   int curdepth, curmaxwidth, minmaxwidth, newmaxwidth, newdepth;
@@ -409,7 +484,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
       
         cset[0] = unmarked_node;
         ncset = 1;
-        tag[i] = 1;
+        tag[unmarked_node] = 1;
       
         for (j = 0; j < ncset; j++) {
           int node = cset[j];
@@ -505,6 +580,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
       done = 1;
   } 
 
+  *depth = curdepth;
   *maxwidth = 0;
   for (i = 0; i < curdepth; i++)
     *maxwidth = baselevelwidth[i] > (*maxwidth) ? baselevelwidth[i] : (*maxwidth);
@@ -516,6 +592,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
   free(cset);
   free(tag);
   free(maxcset);
+  free(unmarked_nodes);
   free(levelpairs);
   free(zeros);
 }
@@ -667,6 +744,13 @@ void Graph_Assign_Numbers(int nnodes, int adj[], int nadj[], int offset[],
     }
   } /* for each level */
 
+  /* Some nodes may have only neighbors that cannot number them - for
+     example, in a higher level - Number such nodes last */
+
+  for (i = 0; i < nnodes; i++)
+    if (nodemap[i] == -1)
+      nodemap[i] = nnew++;
+
   free(nbrs_curlev);
   free(nbrs_nxtlev);
   free(curlevnodes);
-- 
2.43.0


From 2f2a4ac31bfdd5ab99997dc06826b9c3a4f3e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:11 +0000
Subject: [PATCH 31/60] fix: MESH_Renumber with Reverse Cuthill McKee crashed
 on ID gaps, entities without neighbours and empty kinds, ignored face
 connections and left its mark attribute behind

---
 src/hilev/MESH_Renumber.c | 115 +++++++++++++++++++++++++++++++-------
 1 file changed, 96 insertions(+), 19 deletions(-)

diff --git a/src/hilev/MESH_Renumber.c b/src/hilev/MESH_Renumber.c
index 4dde840..8a72ff2 100644
--- a/src/hilev/MESH_Renumber.c
+++ b/src/hilev/MESH_Renumber.c
@@ -89,7 +89,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
     MAttrib_ptr mkatt = MAttrib_New(mesh, "mkatt", INT, MALLTYPE);
 #endif
 
-    if (mtype == MVERTEX || mtype == MALLTYPE) { 
+    if ((mtype == MVERTEX || mtype == MALLTYPE) && MESH_Num_Vertices(mesh)) {
       int nv = MESH_Num_Vertices(mesh);      
       
       /* Compute a graph of vertex connections across elements (faces
@@ -111,6 +111,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
       }
 
 
+      if (!v0) v0 = MESH_Vertex(mesh,0);
+
+      /* The IDs are used as node numbers of the graph below - eliminate gaps */
+
+      idx = 0; i = 0;
+      while ((mv = MESH_Next_Vertex(mesh,&idx)))
+        MV_Set_ID(mv,++i);
+
       nadj = (int *) malloc(nv*sizeof(int));
       nalloc = nv*5;
       adj = (int *) malloc(nalloc*sizeof(int));
@@ -126,6 +134,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 
           adjvlist = List_New(0);
           vfaces = MV_Faces(mv);
+          if (!vfaces) vfaces = List_New(0);
           idx2 = 0;
           while ((vf = List_Next_Entry(vfaces,&idx2))) {
             List_ptr fverts = MF_Vertices(vf,1,0);
@@ -153,11 +162,15 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           List_Delete(vfaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjv = List_Next_Entry(adjvlist,&idx2)))
+            MEnt_Set_AttVal(adjv, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjvlist);
           
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -181,6 +194,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 
           adjvlist = List_New(0);
           vregions = MV_Regions(mv);
+          if (!vregions) vregions = List_New(0);
           idx2 = 0;
           while ((vr = List_Next_Entry(vregions,&idx2))) {
             List_ptr rverts = MR_Vertices(vr);
@@ -208,11 +222,15 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           List_Delete(vregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjv = List_Next_Entry(adjvlist,&idx2)))
+            MEnt_Set_AttVal(adjv, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjvlist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -324,7 +342,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
        edges (differs from RCM in that it does not add adjacent nodes
        in ascending order of their valence) */
 
-    if (mtype == MEDGE || mtype == MALLTYPE) {
+    if ((mtype == MEDGE || mtype == MALLTYPE) && MESH_Num_Edges(mesh)) {
       int ne = MESH_Num_Edges(mesh);
       MEdge_ptr ve;
       List_ptr elist;
@@ -339,7 +357,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 	   connected to the starting vertex as the first edge */
 
 	List_ptr vedges = MV_Edges(v0);
-	e0 = List_Entry(vedges,0);
+	if (!vedges) vedges = List_New(0);
+	if (List_Num_Entries(vedges)) e0 = List_Entry(vedges,0);
 	List_Delete(vedges);
       }
       else {
@@ -365,6 +384,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
       }
 
 
+      if (!e0) e0 = MESH_Edge(mesh,0);
+
+      /* The IDs are used as node numbers of the graph below - eliminate gaps */
+
+      idx = 0; i = 0;
+      while ((me = MESH_Next_Edge(mesh,&idx)))
+        ME_Set_ID(me,++i);
+
       nadj = (int *) malloc(ne*sizeof(int));
       nalloc = ne*5;
       adj = (int *) malloc(nalloc*sizeof(int));
@@ -380,6 +407,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 
           adjelist = List_New(0);
           efaces = ME_Faces(me);
+          if (!efaces) efaces = List_New(0);
           idx2 = 0;
           while ((ef = List_Next_Entry(efaces,&idx2))) {
             List_ptr fedges = MF_Edges(ef,1,0);
@@ -407,11 +435,15 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           List_Delete(efaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
+#else
+          idx2 = 0;
+          while ((adje = List_Next_Entry(adjelist,&idx2)))
+            MEnt_Set_AttVal(adje, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjelist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -435,9 +467,11 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 
           adjelist = List_New(0);
           eregions = ME_Regions(me);
+          if (!eregions) eregions = List_New(0);
           idx2 = 0;
           while ((er = List_Next_Entry(eregions,&idx2))) {
             List_ptr redges = MR_Edges(er);
+            if (!redges) redges = List_New(0);
             idx3 = 0;
             while ((adje = List_Next_Entry(redges,&idx3))) {
               if (adje != me) {
@@ -462,11 +496,15 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           List_Delete(eregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
+#else
+          idx2 = 0;
+          while ((adje = List_Next_Entry(adjelist,&idx2)))
+            MEnt_Set_AttVal(adje, mkatt, 0, 0.0, NULL);
 #endif
           
           nadj[i] = List_Num_Entries(adjelist);
           
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -580,7 +618,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
        edges (differs from RCM in that it does not add adjacent graph nodes
        in ascending order of their valence) */
 
-    if (mtype == MFACE || mtype == MALLTYPE) {      
+    if ((mtype == MFACE || mtype == MALLTYPE) && MESH_Num_Faces(mesh)) {
       int nf = MESH_Num_Faces(mesh);
 
       if (mtype == MALLTYPE) { 
@@ -589,7 +627,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
            connected to the starting vertex as the first edge */
 
         List_ptr vfaces = MV_Faces(v0);
-        f0 = List_Entry(vfaces,0);
+        if (!vfaces) vfaces = List_New(0);
+        if (List_Num_Entries(vfaces)) f0 = List_Entry(vfaces,0);
         List_Delete(vfaces);
       }
       else {
@@ -621,6 +660,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
       }
 
 
+      if (!f0) f0 = MESH_Face(mesh,0);
+
+      /* The IDs are used as node numbers of the graph below - eliminate gaps */
+
+      idx = 0; i = 0;
+      while ((mf = MESH_Next_Face(mesh,&idx)))
+        MF_Set_ID(mf,++i);
+
       nadj = (int *) malloc(nf*sizeof(int));
       nalloc = nf*5;
       adj = (int *) malloc(nalloc*sizeof(int));
@@ -639,6 +686,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           idx2 = 0;
           while ((fv = List_Next_Entry(fverts,&idx2))) {
             List_ptr vfaces = MV_Faces(fv);
+            if (!vfaces) vfaces = List_New(0);
             idx3 = 0;
             while ((adjf = List_Next_Entry(vfaces,&idx3))) {
               if (adjf != mf) {
@@ -648,7 +696,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
@@ -663,11 +711,15 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           List_Delete(fverts);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
+#else
+          idx2 = 0;
+          while ((adjf = List_Next_Entry(adjflist,&idx2)))
+            MEnt_Set_AttVal(adjf, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjflist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -691,9 +743,11 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 
           adjflist = List_New(0);
           fregions = MF_Regions(mf);
+          if (!fregions) fregions = List_New(0);
           idx2 = 0;
           while ((fr = List_Next_Entry(fregions,&idx2))) {
             List_ptr rfaces = MR_Faces(fr);
+            if (!rfaces) rfaces = List_New(0);
             idx3 = 0;
             while ((adjf = List_Next_Entry(rfaces,&idx3))) {
               if (adjf != mf) {
@@ -703,7 +757,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
@@ -718,11 +772,15 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           List_Delete(fregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
+#else
+          idx2 = 0;
+          while ((adjf = List_Next_Entry(adjflist,&idx2)))
+            MEnt_Set_AttVal(adjf, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjflist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -863,7 +921,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
              region */
 
           List_ptr vregions = MV_Regions(v0);
-          r0 = List_Entry(vregions,0);
+          if (!vregions) vregions = List_New(0);
+          if (List_Num_Entries(vregions)) r0 = List_Entry(vregions,0);
           List_Delete(vregions);
         }
         else {
@@ -895,6 +954,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
         }
 
 
+        if (!r0) r0 = MESH_Region(mesh,0);
+
+        /* The IDs are used as node numbers of the graph below - eliminate gaps */
+
+        idx = 0; i = 0;
+        while ((mr = MESH_Next_Region(mesh,&idx)))
+          MR_Set_ID(mr,++i);
+
         nadj = (int *) malloc(nr*sizeof(int));
         nalloc = nr*5;
         adj = (int *) malloc(nalloc*sizeof(int));
@@ -912,6 +979,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           idx2 = 0;
           while ((rv = List_Next_Entry(rverts,&idx2))) {
             List_ptr vregions = MV_Regions(rv);
+            if (!vregions) vregions = List_New(0);
             idx3 = 0;
             while ((adjr = List_Next_Entry(vregions,&idx3))) {
               if (adjr != mr) {
@@ -921,12 +989,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjr, mkatt, &rmarked, &rval, &pval);
 #endif
-                List_Add(adjrlist,adjr);
+                if (!rmarked) {
+                  List_Add(adjrlist,adjr);
 #ifdef MSTK_USE_MARKERS
-                MEnt_Mark(adjr,mkid);
+                  MEnt_Mark(adjr,mkid);
 #else
-                MEnt_Set_AttVal(adjr, mkatt, 1, 0.0, NULL);
+                  MEnt_Set_AttVal(adjr, mkatt, 1, 0.0, NULL);
 #endif
+                }
               }
             }	    
             List_Delete(vregions);
@@ -934,11 +1004,15 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           List_Delete(rverts);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjrlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjr = List_Next_Entry(adjrlist,&idx2)))
+            MEnt_Set_AttVal(adjr, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjrlist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -1048,11 +1122,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 
 #ifdef MSTK_USE_MARKERS
     MSTK_FreeMarker(mkid);
+#else
+    MAttrib_Delete(mkatt);
 #endif
   }
   
 
-  vidatt = MAttrib_New(mesh,"vidrcm",INT,MVERTEX);
+  vidatt = MESH_AttribByName(mesh,"vidrcm");
+  if (!vidatt) vidatt = MAttrib_New(mesh,"vidrcm",INT,MVERTEX);
   idx = 0;
   while ((mv = MESH_Next_Vertex(mesh,&idx))) {
     MEnt_Set_AttVal(mv,vidatt,MV_ID(mv),0.0,NULL);
-- 
2.43.0


From c8cfdca5709e204b0382023ebe8e80f1e8d811d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 32/60] fix: MESH_GetElementGraph crashed on meshes with more
 than four neighbours per region on average, and leaked lists

---
 src/hilev/MESH_GetElementGraph.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hilev/MESH_GetElementGraph.c b/src/hilev/MESH_GetElementGraph.c
index 2506b50..fb38b63 100644
--- a/src/hilev/MESH_GetElementGraph.c
+++ b/src/hilev/MESH_GetElementGraph.c
@@ -41,7 +41,10 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       MFace_ptr rf;
       while ((rf = List_Next_Entry(rfaces, &idx2))) {
 	List_ptr fregs = MF_Regions(rf);
-	if (List_Num_Entries(fregs) == 1) continue;
+	if (List_Num_Entries(fregs) == 1) {
+	  List_Delete(fregs);
+	  continue;
+	}
 
 	MRegion_ptr oppr;
 	if (List_Entry(fregs,0) == mr)
@@ -50,7 +53,7 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 	  oppr = List_Entry(fregs,0);
 	if (pos == nalloc) {
 	  nalloc *= 2;
-	  *adjelems = (int *) realloc(adjelems, nalloc*sizeof(int));
+	  *adjelems = (int *) realloc(*adjelems, nalloc*sizeof(int));
 	}
 	(*adjelems)[pos] = MR_ID(oppr)-1;
 	pos++;
@@ -82,7 +85,10 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       MEdge_ptr fe;
       while ((fe = List_Next_Entry(fedges, &idx2))) {
 	List_ptr efaces = ME_Faces(fe);
-	if (List_Num_Entries(efaces) == 1) continue;
+	if (List_Num_Entries(efaces) == 1) {
+	  List_Delete(efaces);
+	  continue;
+	}
 
 	/* have to account for non-manifold configurations */
 	int idx3 = 0;
-- 
2.43.0


From 20596882e3bbe7629305fcc241123f8e9cdf0343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 33/60] fix: element graphs listed a neighbour once per shared
 side instead of once

---
 src/hilev/MESH_GetElementGraph.c  | 15 +++++++++++++++
 src/io/ExodusII_GetElementGraph.c |  5 +++++
 2 files changed, 20 insertions(+)

diff --git a/src/hilev/MESH_GetElementGraph.c b/src/hilev/MESH_GetElementGraph.c
index fb38b63..a08116f 100644
--- a/src/hilev/MESH_GetElementGraph.c
+++ b/src/hilev/MESH_GetElementGraph.c
@@ -51,6 +51,15 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 	  oppr = List_Entry(fregs,1);
 	else
 	  oppr = List_Entry(fregs,0);
+	/* elements may share more than one side - list them only once */
+	int k;
+	for (k = (*adjbeg)[i]; k < pos; k++)
+	  if ((*adjelems)[k] == MR_ID(oppr)-1) break;
+	if (k < pos) {
+	  List_Delete(fregs);
+	  continue;
+	}
+
 	if (pos == nalloc) {
 	  nalloc *= 2;
 	  *adjelems = (int *) realloc(*adjelems, nalloc*sizeof(int));
@@ -95,6 +104,12 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 	MFace_ptr ef;
 	while ((ef = List_Next_Entry(efaces, &idx3))) {
 	  if (ef != mf) {
+	    /* elements may share more than one side - list them only once */
+	    int k;
+	    for (k = (*adjbeg)[i]; k < pos; k++)
+	      if ((*adjelems)[k] == MF_ID(ef)-1) break;
+	    if (k < pos) continue;
+
 	    if (pos == nalloc) {
 	      nalloc *= 2;
 	      *adjelems = (int *) realloc(*adjelems, nalloc*sizeof(int));
diff --git a/src/io/ExodusII_GetElementGraph.c b/src/io/ExodusII_GetElementGraph.c
index 9dafa24..47c9655 100644
--- a/src/io/ExodusII_GetElementGraph.c
+++ b/src/io/ExodusII_GetElementGraph.c
@@ -964,6 +964,11 @@ extern "C" {
 	else
 	  oppelem = face->elem[0];
 	if (oppelem != -1) {
+	  /* elements may share more than one side - list them only once */
+	  for (k = (*adjbeg)[i]; k < pos; k++)
+	    if ((*adjelems)[k] == oppelem) break;
+	  if (k < pos) continue;
+
 	  if (pos == nalloc) {
 	    nalloc *= 2;
 	    *adjelems = (int *) realloc(*adjelems, nalloc*sizeof(int));
-- 
2.43.0


From 2e86db150f7a9e551cee8c783e0b4adfdc9820ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 34/60] fix: ExodusII_GetElementGraph miscounted sides of
 polyhedra and polygons in later blocks and computed wrong element centers

---
 src/io/ExodusII_GetElementGraph.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/io/ExodusII_GetElementGraph.c b/src/io/ExodusII_GetElementGraph.c
index 47c9655..5965382 100644
--- a/src/io/ExodusII_GetElementGraph.c
+++ b/src/io/ExodusII_GetElementGraph.c
@@ -526,7 +526,7 @@ extern "C" {
 	}
 
 	for (j = 0; j < nel_in_blk; j++) {
-	  nelemfaces[j] = nnpe[j];
+	  nelemfaces[max_elem_id+j] = nnpe[j];
 	  elem_faces[max_elem_id+j] = (int *) malloc(nnpe[j]*sizeof(int));
 	}
 
@@ -698,8 +698,8 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nelnodes; i++) {
-	      int vid = connect[nelnodes*j+i];
+	    for (k = 0; k < nelnodes; k++) {
+	      int vid = connect[nelnodes*j+k];
 	      xcoord += xvals[vid-1];
 	      ycoord += yvals[vid-1];
 	      zcoord += zvals[vid-1];
@@ -744,7 +744,7 @@ extern "C" {
 	}
 
 	for (j = 0; j < nel_in_blk; j++) {
-	  nelemfaces[j] = nnpe[j];
+	  nelemfaces[max_elem_id+j] = nnpe[j];
 	  elem_faces[max_elem_id+j] = (int *) malloc(nnpe[j]*sizeof(int));
 	}
 
@@ -810,11 +810,11 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nnpe[j]; i++) {
-	      int vid = connect[offset+i];
-	      xcoord += xvals[vid]-1;
-	      ycoord += yvals[vid]-1;
-	      zcoord += zvals[vid]-1;
+	    for (k = 0; k < nnpe[j]; k++) {
+	      int vid = connect[offset+k];
+	      xcoord += xvals[vid-1];
+	      ycoord += yvals[vid-1];
+	      zcoord += zvals[vid-1];
 	    }
 	    (*elemcen)[max_elem_id][0] = xcoord/nnpe[j];
 	    (*elemcen)[max_elem_id][1] = ycoord/nnpe[j];
@@ -918,11 +918,11 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nelnodes; i++) {
-	      int vid = connect[nelnodes*j+i];
-	      xcoord += xvals[vid]-1;
-	      ycoord += yvals[vid]-1;
-	      zcoord += zvals[vid]-1;
+	    for (k = 0; k < nelnodes; k++) {
+	      int vid = connect[nelnodes*j+k];
+	      xcoord += xvals[vid-1];
+	      ycoord += yvals[vid-1];
+	      zcoord += zvals[vid-1];
 	    }
 	    (*elemcen)[max_elem_id][0] = xcoord/nelnodes;
 	    (*elemcen)[max_elem_id][1] = ycoord/nelnodes;
-- 
2.43.0


From f3a7e9df2779f28dd51a1f4e16308fa30a723312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 35/60] fix: MESH_ExportToExodusII without MPI wrote outside
 its arrays for vertices that belong to no element

---
 src/io/MESH_ExportToExodusII.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 745faaa..bcc4380 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -713,14 +713,12 @@ extern "C" {
     idx = 0;
     while ((mv = MESH_Next_Vertex(mesh,&idx))) {
       int vowned;
-#ifdef MSTK_HAVE_MPI
 #ifdef MSTK_USE_MARKERS 
       vowned = MEnt_IsMarked(mv,ownedmk);
 #else
       MEnt_Get_AttVal(mv, ownedatt, &vowned, &rval, &pval);
 #endif
       if (!vowned) continue;
-#endif
 
       MV_Coords(mv,vxyz);
       MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
-- 
2.43.0


From 55a57ee639f06064983e27fb240e1f08162cb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 36/60] fix: MESH_Tri2Quad and MESH_Tet2Hex left attributes and
 a partial mesh behind when refusing a mesh, and MESH_Tet2Hex accepted
 polyhedra with triangular faces

---
 src/hilev/MESH_Tet2Hex.c  | 27 +++++++++++++++++++++++----
 src/hilev/MESH_Tri2Quad.c | 16 ++++++++++++----
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/hilev/MESH_Tet2Hex.c b/src/hilev/MESH_Tet2Hex.c
index 0662032..1f9e677 100644
--- a/src/hilev/MESH_Tet2Hex.c
+++ b/src/hilev/MESH_Tet2Hex.c
@@ -52,6 +52,29 @@ extern "C" {
     nV = MESH_Num_Vertices(tetmesh);
     nR = MESH_Num_Regions(tetmesh);
     
+    *hexmesh = NULL;
+
+    /* check that the mesh can be converted before creating anything */
+
+    idf = 0;
+    while( (ptr_f = MESH_Next_Face(tetmesh, &idf)) ) {
+      if( MF_Num_Vertices(ptr_f) != 3 ) {
+	MSTK_Report("MESH_Tet2Hex","Input mesh is not a tetrahedral mesh",MSTK_WARN);
+	return 0;
+      }
+    }
+
+    idr = 0;
+    while( (ptr_r = MESH_Next_Region(tetmesh, &idr)) ) {
+      lst_v = MR_Vertices(ptr_r);
+      n = List_Num_Entries(lst_v);
+      List_Delete(lst_v);
+      if( n != 4 ) {
+	MSTK_Report("MESH_Tet2Hex","Input mesh is not a tetrahedral mesh",MSTK_WARN);
+	return 0;
+      }
+    }
+
     *hexmesh = MESH_New(MESH_RepType(tetmesh));
     
     
@@ -99,10 +122,6 @@ extern "C" {
     idf = 0;
     while( (ptr_f = MESH_Next_Face(tetmesh, &idf)) ) {
       MF_Coords(ptr_f, &n, xyz_lst);
-      if( n != 3 ) {
-	MSTK_Report("MESH_Tet2Hex","Input mesh is not a tetrahedral mesh",MSTK_WARN);
-	return 0;
-      }
 
       for( i=0; i<3; i++ ) xyz[i] = (xyz_lst[0][i] + xyz_lst[1][i] + xyz_lst[2][i]) / 3;
 
diff --git a/src/hilev/MESH_Tri2Quad.c b/src/hilev/MESH_Tri2Quad.c
index 8f0407c..17ddc53 100644
--- a/src/hilev/MESH_Tri2Quad.c
+++ b/src/hilev/MESH_Tri2Quad.c
@@ -50,6 +50,18 @@ extern "C" {
     nV = MESH_Num_Vertices(trimesh);
     nF = MESH_Num_Faces(trimesh);
     
+    *quadmesh = NULL;
+
+    /* check that the mesh can be converted before creating anything */
+
+    idf = 0;
+    while( (ptr_f = MESH_Next_Face(trimesh, &idf)) ) {
+      if( MF_Num_Vertices(ptr_f) != 3 ) {
+	MSTK_Report("MESH_Tri2Quad","Input mesh is not a triangle mesh",MSTK_WARN);
+	return 0;
+      }
+    }
+
     *quadmesh = MESH_New(MESH_RepType(trimesh));
     
     
@@ -97,10 +109,6 @@ extern "C" {
     idf = 0;
     while( (ptr_f = MESH_Next_Face(trimesh, &idf)) ) {
       MF_Coords(ptr_f, &n, xyz_lst);
-      if( n != 3 ) {
-	MSTK_Report("MESH_Tri2Quad","Input mesh is not a triangle mesh",MSTK_WARN);
-	return 0;
-      }
 
       for( i=0; i<3; i++ ) xyz[i] = (xyz_lst[0][i] + xyz_lst[1][i] + xyz_lst[2][i]) / 3;
 
-- 
2.43.0


From afa0e7f0064d843bb77b89fb1410b980fb09d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 37/60] fix: ME_Split_SimplexMesh never recorded the region IDs
 of split tets and left new edges and faces unclassified

---
 src/mod/ME_Split_SimplexMesh.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mod/ME_Split_SimplexMesh.c b/src/mod/ME_Split_SimplexMesh.c
index 9b0a5dd..f159e0f 100644
--- a/src/mod/ME_Split_SimplexMesh.c
+++ b/src/mod/ME_Split_SimplexMesh.c
@@ -17,6 +17,7 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
   int i, j, k, rfdir, ntets=0, ntris=0, *fdim, *fid, *rid=NULL, found;
   MVertex_ptr vsplit, ev[2], (*tetverts)[4]=NULL, (*triverts)[3]=NULL, fv;
   MVertex_ptr fvarr[3], rvarr[4];
+  MEdge_ptr e;
   MFace_ptr f;
   MRegion_ptr r;
   List_ptr etets, rfaces, etris, fverts;
@@ -35,6 +36,7 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
   for (i = 0; i < ntets; i++) {
 
     r = List_Entry(etets,i);
+    rid[i] = MR_GEntID(r);
 
     rfaces = MR_Faces(r);
 
@@ -149,6 +151,12 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
     MF_Set_Vertices(f,3,fvarr);
     MF_Set_GEntDim(f,fdim[i]);
     MF_Set_GEntID(f,fid[i]);
+
+    /* The edge between the two triangles lies in the original triangle */
+
+    e = MVs_CommonEdge(triverts[i][0],vsplit);
+    ME_Set_GEntDim(e,fdim[i]);
+    ME_Set_GEntID(e,fid[i]);
   }
   if (ntris) {
     free(triverts);
@@ -177,6 +185,12 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
     r = MR_New(mesh);
     MR_Set_Vertices(r,4,rvarr,0,NULL);
     MR_Set_GEntID(r,rid[i]);
+
+    /* The face between the two tets lies in the original tet */
+
+    f = MVs_CommonFace(3,rvarr);
+    MF_Set_GEntDim(f,3);
+    MF_Set_GEntID(f,rid[i]);
   }
 
   if (ntets) {
-- 
2.43.0


From fa418472a28b74b808f9523f7e92bd207d537885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 38/60] fix: ME_Swap2D gave the new edge and faces model face
 ID 0

---
 src/mod/ME_Swap2D.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mod/ME_Swap2D.c b/src/mod/ME_Swap2D.c
index a5b1ac7..a4e6bb2 100644
--- a/src/mod/ME_Swap2D.c
+++ b/src/mod/ME_Swap2D.c
@@ -23,8 +23,7 @@ int ME_Swap2D(MEdge_ptr eswp, MEdge_ptr *enew, MFace_ptr fnew[2]) {
     MSTK_Report("ME_Swap2D","Can swap edges on model faces only",MSTK_ERROR);
     return 0;
   } 
-  /*  gid = ME_GEntID(eswp); */
-  gid = 0;
+  gid = ME_GEntID(eswp);
  
   /* Collect information */
 
-- 
2.43.0


From 046c8cedb64bc6af2a308e0ce18e904a25b40c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 39/60] fix: MF_Split and MF_Split_SimplexMesh left the new
 edges and faces unclassified, and MF_Split_SimplexMesh never recorded region
 IDs

---
 src/mod/MF_Split.c             |  9 +++++++++
 src/mod/MF_Split_SimplexMesh.c | 15 +++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/mod/MF_Split.c b/src/mod/MF_Split.c
index 69572b7..8e43692 100644
--- a/src/mod/MF_Split.c
+++ b/src/mod/MF_Split.c
@@ -68,6 +68,15 @@ MVertex_ptr MF_Split(MFace_ptr fsplit, double *splitxyz) {
     MF_Set_GEntID(fnew[i],gid);
     MF_Set_Vertices(fnew[i],3,fv);
   }
+
+  /* The new edges lie in the split face */
+
+  for (i = 0; i < nfv; i++) {
+    enew = MVs_CommonEdge(vsplit,List_Entry(fverts,i));
+    ME_Set_GEntDim(enew,gdim);
+    ME_Set_GEntID(enew,gid);
+  }
+
   List_Delete(fverts);
   nnew = nfv;
 
diff --git a/src/mod/MF_Split_SimplexMesh.c b/src/mod/MF_Split_SimplexMesh.c
index bbb6b97..d3ce205 100644
--- a/src/mod/MF_Split_SimplexMesh.c
+++ b/src/mod/MF_Split_SimplexMesh.c
@@ -24,6 +24,7 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
   int i, j, k, rfdir=1, ntets=0, ntris=0, *rid=NULL, fgdim, fgid, found;
   MVertex_ptr vsplit, ev[2], (*tetverts)[4]=NULL, triverts[3], fv;
   MVertex_ptr fvarr[3], rvarr[4];
+  MEdge_ptr e;
   MFace_ptr f;
   MRegion_ptr r;
   List_ptr fedges, ftets, rfaces, fverts;
@@ -41,6 +42,7 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
   for (i = 0; i < ntets; i++) {
 
     r = List_Entry(ftets,i);
+    rid[i] = MR_GEntID(r);
 
     rfaces = MR_Faces(r);
 
@@ -125,6 +127,19 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
       MR_Set_Vertices(r, 4, rvarr, 0, NULL);
       MR_Set_GEntID(r,rid[i]);
     }
+
+    /* The new edge and faces lie in the original tet */
+    e = MVs_CommonEdge(vsplit,tetverts[i][3]);
+    ME_Set_GEntDim(e,3);
+    ME_Set_GEntID(e,rid[i]);
+    for (j = 0; j < 3; j++) {
+      fvarr[0] = vsplit;
+      fvarr[1] = tetverts[i][3];
+      fvarr[2] = tetverts[i][j];
+      f = MVs_CommonFace(3,fvarr);
+      MF_Set_GEntDim(f,3);
+      MF_Set_GEntID(f,rid[i]);
+    }
   }
 
   if (ntets) {
-- 
2.43.0


From fa6e15c5b12ef8b53e00f527a1404ca94e6c207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 40/60] fix: MFs_Join compared the first face with itself,
 ignored the directions of the faces and the order of their regions

---
 src/mod/MFs_Join.c | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/mod/MFs_Join.c b/src/mod/MFs_Join.c
index 4de0580..4a6c375 100644
--- a/src/mod/MFs_Join.c
+++ b/src/mod/MFs_Join.c
@@ -12,12 +12,12 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 
 
 MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
-  int i, k0, k1, nfe0, nfe1, *fedir0, *fedir1, *fedir3, gdim, gid;
+  int i, k0, k1, nef, nfe0, nfe1, samedir, *fedir0, *fedir1, *fedir3, gdim, gid;
   MEdge_ptr *fe0, *fe1, *fe3;
   MFace_ptr  nuface;
   MRegion_ptr fr00=NULL, fr01=NULL, fr10=NULL, fr11=NULL;
   Mesh_ptr   mesh;
-  List_ptr   fedges, fregs;
+  List_ptr   fedges, fregs, efaces;
 
   mesh = MF_Mesh(f0);
   gid = MF_GEntID(f0);
@@ -27,7 +27,7 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
     MSTK_Report("MFs_Join","Faces not from same mesh",MSTK_ERROR);
     return 0;
   }
-  else if (gid != MF_GEntID(f0) || gdim != MF_GEntDim(f0)) {
+  else if (gid != MF_GEntID(f1) || gdim != MF_GEntDim(f1)) {
     MSTK_Report("MFs_Join","Faces not from same geometric entity",MSTK_ERROR);
     return 0;
   }
@@ -48,13 +48,30 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
     List_Delete(fregs);
   }
 
-  if (fr00 != fr10 || fr01 != fr11) {
+  /* The regions of the two faces may be listed in either order */
+
+  if (!((fr00 == fr10 && fr01 == fr11) || (fr00 == fr11 && fr01 == fr10))) {
     MSTK_Report("MFs_Join","Faces have incompatible regions connected to them",
                 MSTK_ERROR);
     return 0;
   }
 
 
+  if (!MF_UsesEntity(f0,e,MEDGE) || !MF_UsesEntity(f1,e,MEDGE)) {
+    MSTK_Report("MFs_Join","Cannot find edge in face",MSTK_ERROR);
+    return 0;
+  }
+
+  /* The edge will be deleted, so no other face may use it */
+
+  efaces = ME_Faces(e);
+  nef = List_Num_Entries(efaces);
+  List_Delete(efaces);
+  if (nef != 2) {
+    MSTK_Report("MFs_Join","Edge is used by other faces",MSTK_ERROR);
+    return 0;
+  }
+
   nfe0 = MF_Num_Edges(f0);
   nfe1 = MF_Num_Edges(f1);
 
@@ -83,19 +100,21 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
   }
   List_Delete(fedges);
 
-  if (k0 == -1 || k1 == -1) {
-    MSTK_Report("MFs_Join","Cannot find edge in face",MSTK_ERROR);
-    return 0;
-  }
-
   for (i = 0; i < nfe0-1; i++) {
     fe3[i] = fe0[(k0+1+i)%nfe0];
     fedir3[i] = fedir0[(k0+1+i)%nfe0];
   }
 
+  /* The new face is directed like f0; if f1 uses the common edge in
+     the same direction as f0, its other edges have to be traversed
+     the opposite way */
+
+  samedir = (fedir0[k0] == fedir1[k1]);
+
   for (i = 0; i < nfe1-1; i++) {
-    fe3[(nfe0-1)+i] = fe1[(k1+1+i)%nfe1];
-    fedir3[(nfe0-1)+i] = fedir1[(k1+1+i)%nfe1];
+    int k = samedir ? (k1+nfe1-1-i)%nfe1 : (k1+1+i)%nfe1;
+    fe3[(nfe0-1)+i] = fe1[k];
+    fedir3[(nfe0-1)+i] = samedir ? !fedir1[k] : fedir1[k];
   }
 
   
-- 
2.43.0


From ae3e53d3b7cb3d287a0bedc6cafa35c4b1e63155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 41/60] fix: MFs_Merge compared all edges of the two faces only
 in debug builds

---
 src/mod/MFs_Merge_FN.c | 58 ++++++++++--------------------------------
 1 file changed, 14 insertions(+), 44 deletions(-)

diff --git a/src/mod/MFs_Merge_FN.c b/src/mod/MFs_Merge_FN.c
index 1b58929..7710d99 100644
--- a/src/mod/MFs_Merge_FN.c
+++ b/src/mod/MFs_Merge_FN.c
@@ -16,7 +16,6 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
   int i, idx, gdim1, gid1, gdim2, gid2, dir, nfe1, nfe2, nsets;
   MRegion_ptr reg;
-  MVertex_ptr fv0;
   Mesh_ptr    mesh;
   List_ptr    fregs2, fedges1, fedges2;
   MSet_ptr    mset;
@@ -54,63 +53,34 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
 
   fedges1 = MF_Edges(f1,1,0);
   nfe1 = List_Num_Entries(fedges1);
-  dir = MF_EdgeDir_i(f1,0);
-  fv0 = ME_Vertex(List_Entry(fedges1,0),!dir);
-  
-  fedges2 = MF_Edges(f2,1,fv0);
+  fedges2 = MF_Edges(f2,1,0);
   nfe2 = List_Num_Entries(fedges2);
   
   if (nfe1 != nfe2) {
     MSTK_Report("MFs_Merge",
 		"To-be-merged faces have different number of edges",
 		MSTK_ERROR);
+    List_Delete(fedges1);
+    List_Delete(fedges2);
     return 0;
   }
-  
-  
-  if (List_Entry(fedges1,0) == List_Entry(fedges2,0)) {
-    dir = 1;
-
-#ifdef DEBUG  
 
-    /* Full edge-by-edge check */
+  /* Full edge-by-edge check */
 
-    for (i = 0; i < nfe1; i++) {
-      if (List_Entry(fedges1,i) != List_Entry(fedges2,i)) {
-	MSTK_Report("MFs_Merge",
-		    "Edges of faces must be merged before merging faces",
-		    MSTK_ERROR);
-	return 0;
-      }
+  for (i = 0; i < nfe1; i++) {
+    if (!List_Contains(fedges1,List_Entry(fedges2,i))) {
+      MSTK_Report("MFs_Merge",
+                  "Edges of faces must be merged before merging faces",
+                  MSTK_ERROR);
+      List_Delete(fedges1);
+      List_Delete(fedges2);
+      return 0;
     }
-#endif 
-
   }
-  else if (List_Entry(fedges1,0) == List_Entry(fedges2,nfe1-1)) {
-    dir = 0;
-    
-#ifdef DEBUG  
-
-    /* Full edge-by-edge check */
-
-    for (i = 0; i < nfe1; i++) {
-      if (List_Entry(fedges1,i) != List_Entry(fedges2,nfe1-i-1)) {
-	MSTK_Report("MFs_Merge",
-		    "Edges of faces must be merged before merging faces",
-		    MSTK_ERROR);
-	return 0;
-      }
-    }
 
-#endif 
+  /* Are f1 and f2 oriented the same way? */
 
-  }
-  else {
-    MSTK_Report("MFs_Merge",
-		"Edges of faces must be merged before merging faces",
-		MSTK_ERROR);
-    return 0;
-  }
+  dir = (MF_EdgeDir_i(f1,0) == MF_EdgeDir(f2,List_Entry(fedges1,0)));
 
   List_Delete(fedges1);
   List_Delete(fedges2);
-- 
2.43.0


From a397249791acfeecf3e37e824574137025feecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 42/60] fix: ME_Collapse ignored the requested vertex, recorded
 refused merges as done and crashed on edges without faces

---
 src/mod/ME_Collapse.c | 94 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 83 insertions(+), 11 deletions(-)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index d5f0277..c90c5a8 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -9,6 +9,62 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 #include "MSTK_private.h"
 
 
+/* Do two entities which will coincide after a collapse lie on
+   different model entities of the same dimension? */
+
+static int Merge_Conflict(MEntity_ptr ent1, MEntity_ptr ent2) {
+  return (ent1 && ent2 && MEnt_GEntDim(ent1) == MEnt_GEntDim(ent2) &&
+          MEnt_GEntID(ent1) != MEnt_GEntID(ent2));
+}
+
+/* Check the edges of triangles and the faces of tetrahedra that
+   degenerate when edge 'e' is collapsed */
+
+static int ME_Merge_Conflict(MEdge_ptr e) {
+  int idx, idx2, conflict=0;
+  MVertex_ptr v0 = ME_Vertex(e,0);
+  List_ptr efaces = ME_Faces(e), eregs = ME_Regions(e);
+
+  if (efaces) {
+    MFace_ptr face;
+    idx = 0;
+    while ((face = List_Next_Entry(efaces,&idx))) {
+      List_ptr fedges = MF_Edges(face,1,0);
+      if (List_Num_Entries(fedges) == 3) {
+        MEdge_ptr edge, merged[2] = {NULL,NULL};
+        idx2 = 0;
+        while ((edge = List_Next_Entry(fedges,&idx2)))
+          if (edge != e)
+            merged[ME_UsesEntity(edge,v0,MVERTEX)] = edge;
+        if (Merge_Conflict(merged[0],merged[1])) conflict = 1;
+      }
+      List_Delete(fedges);
+    }
+    List_Delete(efaces);
+  }
+
+  if (eregs) {
+    MRegion_ptr reg;
+    idx = 0;
+    while ((reg = List_Next_Entry(eregs,&idx))) {
+      List_ptr rfaces = MR_Faces(reg);
+      if (List_Num_Entries(rfaces) == 4) {
+        MFace_ptr face, merged[2] = {NULL,NULL};
+        idx2 = 0;
+        while ((face = List_Next_Entry(rfaces,&idx2)))
+          if (!MF_UsesEntity(face,e,MEDGE))
+            merged[MF_UsesEntity(face,v0,MVERTEX)] = face;
+        if (Merge_Conflict(merged[0],merged[1])) conflict = 1;
+      }
+      List_Delete(rfaces);
+    }
+    List_Delete(eregs);
+  }
+
+  return conflict;
+}
+
+
 /*                                                                      */
 /* Collapse an edge                                                     */
 /*   All elements connected to this edge will be collapsed/deleted and  */
@@ -79,12 +135,12 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
         status = 0;                 /* cannot allow since it will cause 
                                        a dimensional reduction in mesh */
       else {
-        /* No restriction because of topology - pick the one with the
+        /* No restriction because of topology - without a preference pick the one with the
          * lower global ID to delete - important for parallel
          * operation consistency */
         int vdel_gid = MV_GlobalID(vdel);
         int vkeep_gid = MV_GlobalID(vkeep);
-        if (vdel_gid < vkeep_gid) {
+        if (vkeep_in == NULL && vdel_gid < vkeep_gid) {
           MVertex_ptr vtemp = vdel;
           vdel = vkeep;
           vkeep = vtemp;
@@ -124,8 +180,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
     idx1 = 0;
     while ((edge = (MEdge_ptr) List_Next_Entry(vedges,&idx1))) {
       List_ptr efaces = ME_Faces(edge);
-      int nef = List_Num_Entries(efaces);
-      List_Delete(efaces);
+      int nef = efaces ? List_Num_Entries(efaces) : 0;
+      if (efaces) List_Delete(efaces);
       if (nef < 2) {
         vdel_external = 1;
         break;
@@ -147,7 +203,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
         if (fregs) List_Delete(fregs);
 
         if (nfr == 1) {
-          vdel_external = 0;
+          vdel_external = 1;
           break;
         }
       }
@@ -169,6 +225,12 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
   }
 
 
+  /* Entities on different model entities of the same dimension cannot
+     be merged */
+
+  if (topoflag == 1 && status && ME_Merge_Conflict(e))
+    status = 0;
+
   if (status == 0)
     return NULL;   /* Cannot collapse due to constraints of topological
 		   conformity with geometric model */
@@ -397,8 +459,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              edge */
           
           efaces = ME_Faces(edge);
-          int nef = List_Num_Entries(efaces);
-          if (nef == 1) {
+          if (!efaces) { /* the only face of this edge degenerated */
             edge_on_boundary = 1;
           } else {
             idx3 = 0;
@@ -415,7 +476,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               if (edge_on_boundary) break;
             }
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
         }
     
         edge2_on_boundary = 0;
@@ -429,8 +490,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              boundary of a ghost layer can mimic an external edge */
           
           efaces = ME_Faces(edge2);
-          int nef = List_Num_Entries(efaces);
-          if (nef == 1) {
+          if (!efaces) { /* the only face of this edge degenerated */
             edge2_on_boundary = 1;
           } else {
             idx3 = 0;
@@ -447,9 +507,15 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               if (edge2_on_boundary) break;
             }
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
         }
     
+        if (topoflag == 1 && ME_GEntDim(edge) != ME_GEntDim(edge2)) {
+          /* the edge on the lower dimensional model entity must stay */
+          edge_on_boundary = (ME_GEntDim(edge) < ME_GEntDim(edge2));
+          edge2_on_boundary = !edge_on_boundary;
+        }
+
         if (edge_on_boundary == edge2_on_boundary) {
           /* if both edges are boundary edges or both are interior, then we
              don't have to worry about topological consistency of the
@@ -542,6 +608,12 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
           int face2_on_boundary = ((MF_PType(face2) != PGHOST) && !fregs2) ? 1 : 0;
           if (fregs2) List_Delete(fregs2);
 
+          if (topoflag == 1 && MF_GEntDim(face) != MF_GEntDim(face2)) {
+            /* the face on the lower dimensional model entity must stay */
+            face_on_boundary = (MF_GEntDim(face) < MF_GEntDim(face2));
+            face2_on_boundary = !face_on_boundary;
+          }
+
           if (face_on_boundary == face2_on_boundary) {
           /* if both faces are boundary faces or both are interior, then we
              don't have to worry about topological consistency of the
-- 
2.43.0


From e13f7f5a4d308f382f8dfd49e1310879c2f3bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 43/60] fix: attributes on local vertices created with the
 wrong mesh while adding ghost faces (freed attribute used later)

---
 src/par/MESH_AddGhost.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/par/MESH_AddGhost.c b/src/par/MESH_AddGhost.c
index 9bc3a74..a9c3ff7 100644
--- a/src/par/MESH_AddGhost.c
+++ b/src/par/MESH_AddGhost.c
@@ -161,8 +161,8 @@ int MESH_Surf_AddGhost_FN(Mesh_ptr mesh, Mesh_ptr submesh, int part_no, int ring
 #ifdef MSTK_USE_MARKERS
   int mkvid = MSTK_GetMarker();
 #else
-  MAttrib_ptr lvidatt = MAttrib_New(mesh, "temp_lv_id", INT, MVERTEX);
-  MAttrib_ptr gvidatt = MAttrib_New(submesh, "temp_gv_id", INT, MVERTEX);
+  MAttrib_ptr lvidatt = MAttrib_New(submesh, "temp_lv_id", INT, MVERTEX);
+  MAttrib_ptr gvidatt = MAttrib_New(mesh, "temp_gv_id", INT, MVERTEX);
 #endif
 
   bverts = List_New(10);
-- 
2.43.0


From ca803e1f817eaf15a2dac2d785b52abd8c49c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 44/60] fix: partitioning a mesh a second time used lists and
 owners left over from the first

---
 src/par/MESH_Partition.c          | 14 ++++++++++++++
 src/par/MESH_Partition_and_Send.c |  8 +++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/par/MESH_Partition.c b/src/par/MESH_Partition.c
index 38c418b..d4f0561 100644
--- a/src/par/MESH_Partition.c
+++ b/src/par/MESH_Partition.c
@@ -71,6 +71,20 @@ extern "C" {
     MAttType att_type;
     MAttrib_ptr attrib;
 
+    /* The master partition ID of a global entity is used below to see
+       if the entity has been assigned an owner - discard the result of
+       any previous partitioning of this mesh */
+
+    idx = 0;
+    while ((gmv = MESH_Next_Vertex(mesh,&idx)))
+      MV_Set_MasterParID(gmv,0);
+    idx = 0;
+    while ((gme = MESH_Next_Edge(mesh,&idx)))
+      ME_Set_MasterParID(gme,0);
+    idx = 0;
+    while ((gmf = MESH_Next_Face(mesh,&idx)))
+      MF_Set_MasterParID(gmf,0);
+
     /* basic mesh information */
     nf = MESH_Num_Faces(mesh);
     nr = MESH_Num_Regions(mesh);
diff --git a/src/par/MESH_Partition_and_Send.c b/src/par/MESH_Partition_and_Send.c
index 5c3151c..b2f93bb 100644
--- a/src/par/MESH_Partition_and_Send.c
+++ b/src/par/MESH_Partition_and_Send.c
@@ -374,9 +374,7 @@ extern "C" {
     free(submeshes);
 
 
-    /* Delete the lists associated with g2latt attribute but don't
-       remove attribute itself from each of these entities - it will
-       get deleted when the mesh gets deleted */
+    /* Delete the lists associated with g2latt attribute */
 
     idx = 0;
     while ((mv = MESH_Next_Vertex(parentmesh,&idx))) {
@@ -402,6 +400,10 @@ extern "C" {
       if (g2llist) List_Delete(g2llist);
     }	
 	
+    /* The attribute refers to deleted lists - don't leave it behind */
+
+    MAttrib_Delete(g2latt);
+
     if (del_inmesh) MESH_Delete(parentmesh);
     return 1;
   }
-- 
2.43.0


From 45463a78b5d6fa4e68a5f2459d295779857e7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 45/60] fix: MESH_Update1Attribute crashed on vector attributes
 without a value on an owner, mishandled one component vectors and kept stale
 ghost values when the owner has none

---
 src/par/MESH_Update1Attribute.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/par/MESH_Update1Attribute.c b/src/par/MESH_Update1Attribute.c
index f1241da..a6abc47 100644
--- a/src/par/MESH_Update1Attribute.c
+++ b/src/par/MESH_Update1Attribute.c
@@ -131,12 +131,12 @@ extern "C" {
 	list_value_int_send[j] = ival;
       }
       else {
-	if (ncomp == 1)
+	if (att_type == DOUBLE)
 	  list_value_double_send[j] = rval;
-	if (ncomp > 1) {
+	else { /* an entity without a value sends zeros */
 	  rval_arr = (double *)pval;
 	  for(k = 0; k < ncomp; k++)
-	    list_value_double_send[ncomp*j+k] = rval_arr[k];
+	    list_value_double_send[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
 	}
       }
     }
@@ -312,9 +312,9 @@ extern "C" {
       if (att_type == INT)
 	ival = list_value_int_recv[i];
       else {
-	if(ncomp == 1) 
+	if (att_type == DOUBLE)
 	  rval = list_value_double_recv[i];
-	if(ncomp > 1)
+	else
 	  {
             int allzero = 1;
             for (k = 0; k < ncomp; k++)
@@ -335,6 +335,8 @@ extern "C" {
           (att_type == DOUBLE && rval) ||
           ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
         MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+      else /* the owner has no value or a zero value; don't keep an old one */
+        MEnt_Rem_AttVal(ment,attrib);
     }
 
     /* release the send buffer */
-- 
2.43.0


From 9d639f11ada6fb17844b2fb8fe44b98cb5024149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 46/60] fix: MESH_GathScat1Attribute read vector values through
 the wrong pointer, copied max/min vectors backwards, summed after MIN and
 ignored zero values

---
 src/par/MESH_GathScat1Attribute.c | 91 +++++++++++++++----------------
 1 file changed, 43 insertions(+), 48 deletions(-)

diff --git a/src/par/MESH_GathScat1Attribute.c b/src/par/MESH_GathScat1Attribute.c
index 9d94437..7b8541c 100644
--- a/src/par/MESH_GathScat1Attribute.c
+++ b/src/par/MESH_GathScat1Attribute.c
@@ -273,12 +273,12 @@ extern "C" {
 	      list_value_int_send[n] = ival;
 	    }
 	    else {
-	      if (ncomp == 1)
+	      if (att_type == DOUBLE)
 		list_value_double_send[n] = rval;
-	      if (ncomp > 1) {
+	      else { /* an entity without a value sends zeros */
 		rval_arr = (double *)pval;
 		for(k = 0; k < ncomp; k++)
-		  list_value_double_send[ncomp*n+k] = rval_arr[k];
+		  list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
 	      }
 	    }
             n++;
@@ -420,10 +420,14 @@ extern "C" {
       int nfound = 0;
       int final_ival;
       double final_rval;
-      double *final_rval_arr = (double *) malloc(ncomp*sizeof(double));
+      double *final_rval_arr = NULL;
 
-      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,
-                      (void *) final_rval_arr);
+      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,&pval);
+      if (att_type == VECTOR || att_type == TENSOR) {
+        final_rval_arr = (double *) calloc(ncomp,sizeof(double));
+        if (pval)
+          memcpy(final_rval_arr,pval,ncomp*sizeof(double));
+      }
 
       for (i = 0; i < num_recv_procs; i++) {
         int offset = recv_pos[i];   /* recv_pos array is num_recv_procs long */
@@ -463,7 +467,7 @@ extern "C" {
           }
         }
         else {
-          if(ncomp == 1) {
+          if (att_type == DOUBLE) {
             rval = list_value_double_recv[ind];
             switch (optype) {
               case ATTOP_MAX:
@@ -480,46 +484,35 @@ extern "C" {
                 break;
             }
           }
-          if(ncomp > 1) {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
+          else {
+            rval_arr = &list_value_double_recv[ind*ncomp];
+            double final_norm = 0.0, norm = 0.0;
+            switch (optype) {
+              case ATTOP_MAX:
+                for (k = 0; k < ncomp; k++) 
+                  final_norm += final_rval_arr[k]*final_rval_arr[k];
+                for (k = 0; k < ncomp; k++)
+                  norm += rval_arr[k]*rval_arr[k];
+                if (norm > final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
+                break;
+              case ATTOP_MIN:
+                for (k = 0; k < ncomp; k++) 
+                  final_norm += final_rval_arr[k]*final_rval_arr[k];
+                for (k = 0; k < ncomp; k++)
+                  norm += rval_arr[k]*rval_arr[k];
+                if (norm < final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
                 break;
-              }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-              double final_norm = 0.0, norm = 0.0;
-              switch (optype) {
-                case ATTOP_MAX:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm > final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                  break;
-                case ATTOP_MIN:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm < final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                case ATTOP_SUM: case ATTOP_AVG:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] += rval_arr[k];
-                  break;
-                default:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] = rval_arr[k];
-                  break;
-              }
-            }	
-            else
-              rval_arr = NULL;
+              case ATTOP_SUM: case ATTOP_AVG:
+                for (k = 0; k < ncomp; k++)
+                  final_rval_arr[k] += rval_arr[k];
+                break;
+              default:
+                for (k = 0; k < ncomp; k++)
+                  final_rval_arr[k] = rval_arr[k];
+                break;
+            }
           }
         }
 
@@ -535,15 +528,17 @@ extern "C" {
 
       if (optype == ATTOP_AVG) {
         if (att_type == DOUBLE) final_rval /= nfound+1;
-        if ((att_type == VECTOR || att_type == TENSOR) && rval_arr)
+        if (att_type == VECTOR || att_type == TENSOR)
           for (k = 0; k < ncomp; k++)
             final_rval_arr[k] /= nfound+1;
       }
       
       if ((att_type == INT && final_ival) ||
           (att_type == DOUBLE && final_rval) ||
-          ((att_type == VECTOR || att_type == TENSOR) && final_rval_arr))
+          att_type == VECTOR || att_type == TENSOR)
         MEnt_Set_AttVal(ment,attrib,final_ival,final_rval,(void*) final_rval_arr);
+      else /* result is zero; don't keep the old value */
+        MEnt_Rem_AttVal(ment,attrib);
 
     }
     
-- 
2.43.0


From 273e77efeedcf151af7872e48def827a8abba746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 47/60] fix: MESH_XchngEdgeFaceAttrib crashed on vector
 attributes without a value, mishandled one component vectors and ignored zero
 values

---
 src/par/MESH_XchngEdgeFaceAttrib.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_XchngEdgeFaceAttrib.c b/src/par/MESH_XchngEdgeFaceAttrib.c
index 6a2db91..3ee9d87 100644
--- a/src/par/MESH_XchngEdgeFaceAttrib.c
+++ b/src/par/MESH_XchngEdgeFaceAttrib.c
@@ -266,12 +266,12 @@ extern "C" {
                 list_value_int_send[n] = ival;
               }
               else {
-                if (ncomp == 1)
+                if (att_type == DOUBLE)
                   list_value_double_send[n] = rval;
-                if (ncomp > 1) {
+                else { /* an entity without a value sends zeros */
                   rval_arr = (double *)pval;
                   for(k = 0; k < ncomp; k++)
-                    list_value_double_send[ncomp*n+k] = rval_arr[k];
+                    list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
                 }
               }
               n++;
@@ -430,7 +430,7 @@ extern "C" {
         if (att_type == INT) 
           ival = list_value_int_recv[ind];
         else {
-          if(ncomp == 1) 
+          if (att_type == DOUBLE)
             rval = list_value_double_recv[ind];
           else {
             int allzero = 1;
@@ -453,6 +453,8 @@ extern "C" {
             (att_type == DOUBLE && rval) ||
             ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
           MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+        else /* the ghost had no value or a zero value; don't keep the old one */
+          MEnt_Rem_AttVal(ment,attrib);
        
         break;
       } /* for (i = 0; i < num_recv_procs; i++) */
-- 
2.43.0


From 910ad0da942e709ea358b3cdebe77b7d4d4477c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 48/60] fix: lookup by global ID crashed for a kind of entity
 the mesh has none of

---
 src/base/Mesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 4676f1e..a7d3911 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -1496,6 +1496,8 @@ MVertex_ptr MESH_VertexFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MVertex_ptr mv;
 
+  if (!mesh->nv) return NULL;  /* no list to search in */
+
   if (!mesh->gid_sorted_mvlist)
     MSTK_Report("MESH_VertexFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
@@ -1520,6 +1522,8 @@ MEdge_ptr MESH_EdgeFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MEdge_ptr me;
 
+  if (!mesh->ne) return NULL;  /* no list to search in */
+
   if (!mesh->gid_sorted_melist)
     MSTK_Report("MESH_EdgeFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
@@ -1544,6 +1548,8 @@ MFace_ptr MESH_FaceFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MFace_ptr mf;
 
+  if (!mesh->nf) return NULL;  /* no list to search in */
+
   if (!mesh->gid_sorted_mvlist)
     MSTK_Report("MESH_FaceFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
@@ -1568,6 +1574,8 @@ MRegion_ptr MESH_RegionFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MRegion_ptr mr;
 
+  if (!mesh->nr) return NULL;  /* no list to search in */
+
   if (!mesh->gid_sorted_mvlist)
     MSTK_Report("MESH_RegionFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
-- 
2.43.0


From f9f4b04d594e57fcc81b66dd5c859169cfc3ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 49/60] fix: weaving with given neighbours overwrote owners of
 entities shared by three ranks and sent stale labels

---
 src/par/MESH_AssignGlobalIDs_point.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/par/MESH_AssignGlobalIDs_point.c b/src/par/MESH_AssignGlobalIDs_point.c
index c84f1d7..0ddf4aa 100644
--- a/src/par/MESH_AssignGlobalIDs_point.c
+++ b/src/par/MESH_AssignGlobalIDs_point.c
@@ -282,6 +282,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
         /* Get ALL boundary vertices from rank 'i' */
         MPI_Recv(recv_list_coor,3*max_nbv,MPI_DOUBLE,i,rank,comm,&status);
         MPI_Get_count(&status,MPI_DOUBLE,&count);
+        for (j = 0; j < max_nbv; j++) vertex_ov_label[j] = 0; /* used above */
         for (j = 0; j < nbv; j++) {
           mv = List_Entry(boundary_verts,j);
           if (MV_PType(mv) == POVERLAP) continue;
@@ -294,9 +295,11 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
                                   compareCoorDouble);
           if (loc) {  // new match
             iloc = (int)(loc - recv_list_coor)/3;
-            MV_Set_PType(mv,PGHOST);
-            MV_Set_MasterParID(mv,i);
-            MV_Flag_OnParBoundary(mv);
+            if (MV_PType(mv) != PGHOST) {
+              MV_Set_PType(mv,PGHOST);
+              MV_Set_MasterParID(mv,i);
+              MV_Flag_OnParBoundary(mv);
+            }
 
             if (MV_MasterParID(mv) == i) {
               /* Whether the master partition ID was set above or
@@ -495,6 +498,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 	for(j = 0; j < nbe; j++) {
 	  me = List_Entry(boundary_edges,j);
 	  if (ME_PType(me) == POVERLAP) continue;  /* already labeled overlap edge */
+	  if (ME_PType(me) == PGHOST) continue;  /* already matched on a lower rank */
 	  edge_id[0] = MV_GlobalID(ME_Vertex(me,0));
 	  edge_id[1] = MV_GlobalID(ME_Vertex(me,1));
 	  loc = (int *)bsearch(&edge_id,
@@ -737,6 +741,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 	for(j = 0; j < nbf; j++) {
 	  mf = List_Entry(boundary_faces,j);
 	  if(MF_PType(mf) == POVERLAP) continue; /* already labeled as overlap */
+	  if(MF_PType(mf) == PGHOST) continue; /* already matched on a lower rank */
 	  mfverts = MF_Vertices(mf,1,0);
 	  nfv = List_Num_Entries(mfverts);
 	  face_id[0] = nfv;                           
-- 
2.43.0


From d389de68f0750640db0fd8d02cc6b7f7ace5d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 50/60] fix: fix: parallel mesh check deadlocks, loops and
 misses ghosts of a rank that sends none

---
 src/par/MESH_Parallel_Check.c | 58 +++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/src/par/MESH_Parallel_Check.c b/src/par/MESH_Parallel_Check.c
index 9107ad6..77e0ef0 100644
--- a/src/par/MESH_Parallel_Check.c
+++ b/src/par/MESH_Parallel_Check.c
@@ -17,7 +17,7 @@ extern "C" {
 #endif
 
   /* check is the parallel mesh is valid */
-int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank);
+int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank, int num);
 int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm comm);
 int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm comm);
 int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm comm);
@@ -39,9 +39,9 @@ int MESH_Parallel_Check(Mesh_ptr mesh, MSTK_Comm comm) {
 #ifdef DEBUG
   fprintf(stderr,"Begin checking parallel information on submesh %d\n",rank);
 #endif
-  valid = MESH_Parallel_Check_Ghost(mesh,rank);
-  if(valid)
-    valid = MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
+  valid = MESH_Parallel_Check_Ghost(mesh,rank,num);
+  /* collective - all ranks must take part whatever they found locally */
+  valid &= MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
 #ifdef DEBUG
   if (valid) fprintf(stderr,"Passed parallel checking on submesh %d\n",rank);
   else fprintf(stderr,"Failed parallel checking on submesh %d\n",rank);
@@ -135,7 +135,7 @@ int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MVERTEX) ) {
-	MPI_Recv(recv_list_vertex,3*nv,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_vertex,3*max_nv,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d verts from rank %d\n", rank,count/3, i);
 	MPI_Recv(recv_list_coor,3*nv,MPI_DOUBLE,i,rank,comm,&status);
@@ -237,7 +237,7 @@ int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MVERTEX) ) {
-	MPI_Recv(recv_list_vertex,3*nv,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_vertex,3*max_nv,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	MPI_Recv(recv_list_coor,3*nv,MPI_DOUBLE,i,rank,comm,&status);
 	for(j = 0; j < count/3;  j++) {
@@ -374,7 +374,7 @@ int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MEDGE) ) {
-	MPI_Recv(recv_list_edge,5*ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne?
+	MPI_Recv(recv_list_edge,5*max_ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne?
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(j = 0; j < count/5;  j++) {
 	  global_id = recv_list_edge[5*j+4];
@@ -466,7 +466,7 @@ int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	MPI_Send(list_edge,5*index_me,MPI_INT,i,i,comm);
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MEDGE) ) {
-	MPI_Recv(recv_list_edge,5*ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne
+	MPI_Recv(recv_list_edge,5*max_ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(j = 0; j < count/5;  j++) {
 	  global_id = recv_list_edge[5*j+4];
@@ -623,7 +623,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MFACE) ) {
-	MPI_Recv(recv_list_face,(MAXPV3+4)*nf,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
 	for(index_mf = 0; index_mf < count;) {
@@ -638,6 +638,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	    sprintf(mesg,"Global face %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mf += (nfe + 4);
             continue;
 	  } else {
 	    iloc = (int)(loc - ov_list);
@@ -646,6 +647,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
               valid = 0;
               sprintf(mesg,"Could not find overlap face with local ID %d on processor %d", ov_list[nof + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mf += (nfe + 4);
               continue;
             }
 	    gdim = (recv_list_face[index_mf+nfe+1] & 7);
@@ -725,7 +727,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
       }
 
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MFACE) ) {
-	MPI_Recv(recv_list_face,(MAXPV3+4)*nf,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
 	for(index_mf = 0; index_mf < count;) {
@@ -740,6 +742,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	    sprintf(mesg,"Global face %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mf += (nfe + 4);
             continue;
 	  } else {
 	    iloc = (int)(loc - ov_list);
@@ -748,6 +751,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
               valid = 0;
               sprintf(mesg,"Could not find overlap face with local ID %d on processor %d", ov_list[nof + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mf += (nfe + 4);
               continue;
             }
 	    gdim = (recv_list_face[index_mf+nfe+1] & 7);
@@ -853,7 +857,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MREGION) ) {
-	MPI_Recv(recv_list_region,(MAXPF3+4)*nr,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//	printf("rank %d receives %d regions from rank %d\n", rank,count, i);
 	for(index_mr = 0; index_mr < count;) {
@@ -868,6 +872,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	    sprintf(mesg,"Global region %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mr += (nrf + 4);
             continue;
 	  } else {
 	    iloc = (int)(loc - ov_list);
@@ -876,6 +881,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
               valid = 0;
               sprintf(mesg,"Could not find overlap region with local ID %d on processor %d", ov_list[nor + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mr += (nrf + 4);
               continue;
             }
 	    gdim = (recv_list_region[index_mr+nrf+1] & 7);
@@ -952,7 +958,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	MPI_Send(list_region,index_mr,MPI_INT,i,i,comm);
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MREGION) ) {
-	MPI_Recv(recv_list_region,(MAXPF3+4)*nr,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(index_mr = 0; index_mr < count;) {
 	  nrf = recv_list_region[index_mr];
@@ -966,6 +972,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	    sprintf(mesg,"Global region %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mr += (nrf + 4);
             continue;
 	  }
 	  else {
@@ -975,6 +982,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
               valid = 0;
               sprintf(mesg,"Could not find overlap region with local ID %d on processor %d", ov_list[nor + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mr += (nrf + 4);
               continue;
             }
 	    gdim = (recv_list_region[index_mr+nrf+1] & 7);
@@ -1022,7 +1030,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
    check if every ghost entity has a master partition number that is different from current partition 
    check if other PType entity has the same master partition number as this parition
 */
-int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
+int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank, int num) {
   int nv, ne, nf, nr, idx, valid = 1;
   char mesg[256], funcname[32] = "MESH_Parallel_Check";
   MVertex_ptr mv;
@@ -1042,6 +1050,12 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
 	valid = 0;
       }
+      else if (MV_MasterParID(mv) < 0 || MV_MasterParID(mv) >= num ||
+               !MESH_Has_Ghosts_From_Prtn(mesh,MV_MasterParID(mv),MVERTEX)) {
+	sprintf(mesg,"Ghost Vertex %-d on partition %d has master partition id %d but no ghosts come from that partition", MV_GlobalID(mv),rank,MV_MasterParID(mv));
+	MSTK_Report(funcname,mesg,MSTK_ERROR);
+	valid = 0;
+      }
     }
     else  {
       if(MV_MasterParID(mv) != rank) {
@@ -1062,6 +1076,12 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
 	valid = 0;
       }
+      else if (ME_MasterParID(me) < 0 || ME_MasterParID(me) >= num ||
+               !MESH_Has_Ghosts_From_Prtn(mesh,ME_MasterParID(me),MEDGE)) {
+	sprintf(mesg,"Ghost Edge %-d on partition %d has master partition id %d but no ghosts come from that partition", ME_GlobalID(me),rank,ME_MasterParID(me));
+	MSTK_Report(funcname,mesg,MSTK_ERROR);
+	valid = 0;
+      }
     }
     else  {
       if(ME_MasterParID(me) != rank) {
@@ -1082,6 +1102,12 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
 	valid = 0;
       }
+      else if (MF_MasterParID(mf) < 0 || MF_MasterParID(mf) >= num ||
+               !MESH_Has_Ghosts_From_Prtn(mesh,MF_MasterParID(mf),MFACE)) {
+	sprintf(mesg,"Ghost Face %-d on partition %d has master partition id %d but no ghosts come from that partition", MF_GlobalID(mf),rank,MF_MasterParID(mf));
+	MSTK_Report(funcname,mesg,MSTK_ERROR);
+	valid = 0;
+      }
     }
     else  {
       if(MF_MasterParID(mf) != rank) {
@@ -1101,6 +1127,12 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
 	valid = 0;
       }
+      else if (MR_MasterParID(mr) < 0 || MR_MasterParID(mr) >= num ||
+               !MESH_Has_Ghosts_From_Prtn(mesh,MR_MasterParID(mr),MREGION)) {
+	sprintf(mesg,"Ghost Region %-d on partition %d has master partition id %d but no ghosts come from that partition", MR_GlobalID(mr),rank,MR_MasterParID(mr));
+	MSTK_Report(funcname,mesg,MSTK_ERROR);
+	valid = 0;
+      }
     }
     else  {
       if(MR_MasterParID(mr) != rank) {
-- 
2.43.0


From 5ce85722e11d52786b2f2703f7468635fd584fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 51/60] fix: Zoltan graph of a surface mesh linked every face
 to itself; graph arrays too small when an edge has more than two faces

---
 src/par/MESH_PartitionWithMetis.c  | 15 +++++++++++++--
 src/par/MESH_PartitionWithZoltan.c | 19 +++++++++++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/par/MESH_PartitionWithMetis.c b/src/par/MESH_PartitionWithMetis.c
index 0c87112..c649d94 100644
--- a/src/par/MESH_PartitionWithMetis.c
+++ b/src/par/MESH_PartitionWithMetis.c
@@ -28,7 +28,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
   MFace_ptr mf, oppf, rface;
   MRegion_ptr mr, oppr;
   List_ptr fedges, efaces, rfaces, fregions;
-  int  i, ncells, ipos;
+  int  i, ncells, ipos, nadj;
   int  nv, ne, nf, nr, nfe, nef, nfr, nrf, idx, idx2;
   idx_t ngraphvtx, numflag, nedgecut, numparts, ncons;
   idx_t wtflag, metisopts[METIS_NOPTIONS];
@@ -55,7 +55,17 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
     }
 
     xadj = (idx_t *) malloc((nf+1)*sizeof(idx_t));
-    adjncy = (idx_t *) malloc(2*ne*sizeof(idx_t));
+    /* an edge with n faces makes each of them adjacent to n-1 others */
+    nadj = 0; idx = 0;
+    while ((fedge = MESH_Next_Edge(mesh,&idx))) {
+      efaces = ME_Faces(fedge);
+      if (!efaces) continue;  /* edge of no face */
+      nef = List_Num_Entries(efaces);
+      nadj += nef*(nef-1);
+      List_Delete(efaces);
+    }
+
+    adjncy = (idx_t *) malloc(nadj*sizeof(idx_t));
     ncells = nf;
 
     /* Surface mesh */
@@ -74,6 +84,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
 	nef = List_Num_Entries(efaces);
 	
 	if (nef == 1) {
+	  List_Delete(efaces);
 	  continue;          /* boundary edge; nothing to do */
 	}
 	else {
diff --git a/src/par/MESH_PartitionWithZoltan.c b/src/par/MESH_PartitionWithZoltan.c
index 8d2f8e0..c9ee882 100644
--- a/src/par/MESH_PartitionWithZoltan.c
+++ b/src/par/MESH_PartitionWithZoltan.c
@@ -69,7 +69,7 @@ int NDIM_4_ZOLTAN = 3;
   List_ptr fedges, efaces, rfaces, fregions;
   int  i, j, k, id;
   int  nv, ne, nf, nr=0, nfe, nef, nfr, nrf, idx, idx2;
-  int  numflag, nedgecut, ipos;
+  int  numflag, nedgecut, ipos, nadj;
   int  wtflag;
 
   int rc;
@@ -261,9 +261,19 @@ int NDIM_4_ZOLTAN = 3;
         }
 
         graph.nodeGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * nf);
+        /* an edge with n faces makes each of them adjacent to n-1 others */
+        nadj = 0; idx = 0;
+        while ((fedge = MESH_Next_Edge(mesh,&idx))) {
+          efaces = ME_Faces(fedge);
+          if (!efaces) continue;  /* edge of no face */
+          nef = List_Num_Entries(efaces);
+          nadj += nef*(nef-1);
+          List_Delete(efaces);
+        }
+
         graph.nborIndex = (int *)malloc(sizeof(int) * (nf + 1));
-        graph.nborGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * 2*ne);
-        graph.nborProc = (int *)malloc(sizeof(int) * 2*ne);
+        graph.nborGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * nadj);
+        graph.nborProc = (int *)malloc(sizeof(int) * nadj);
       
         graph.nborIndex[0] = 0;
       
@@ -281,12 +291,13 @@ int NDIM_4_ZOLTAN = 3;
             nef = List_Num_Entries(efaces);
 	  
             if (nef == 1) {
+              List_Delete(efaces);
               continue;          /* boundary edge; nothing to do */
             } else {
               int j;
               for (j = 0; j < nef; j++) {
                 oppf = List_Entry(efaces,j);
-                if (oppf == mf) {
+                if (oppf != mf) {
                   graph.nborGID[ipos] = MF_ID(oppf);
                   /* initially set all nodes on processor 0 */
                   graph.nborProc[ipos] = 0;
-- 
2.43.0


From c8b4d52b2564ec066fbf76f0942f0e283984479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 52/60] fix: distributing attributes: vectors without value
 crashed, vectors of one component were lost, empty sets freed a message in
 transit, internal attributes were left behind

---
 src/par/MESH_CopyAttr.c               | 16 +++++++-------
 src/par/MESH_Partition.c              |  3 ++-
 src/par/MESH_Partition_and_Send.c     |  5 +++++
 src/par/MESH_Recv_Attribute.c         | 12 +++++------
 src/par/MESH_Recv_AttributeMetaData.c |  2 +-
 src/par/MESH_Send_Attribute.c         |  8 +++----
 src/par/MESH_Send_MSet.c              | 30 +++++++++++++--------------
 7 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/src/par/MESH_CopyAttr.c b/src/par/MESH_CopyAttr.c
index 4504c22..8ce7092 100644
--- a/src/par/MESH_CopyAttr.c
+++ b/src/par/MESH_CopyAttr.c
@@ -89,7 +89,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -99,7 +99,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmv = List_Next_Entry(lmvlist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -129,7 +129,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -139,7 +139,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lme = List_Next_Entry(lmelist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -169,7 +169,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -179,7 +179,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmf = List_Next_Entry(lmflist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -210,7 +210,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -220,7 +220,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmr = List_Next_Entry(lmrlist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
diff --git a/src/par/MESH_Partition.c b/src/par/MESH_Partition.c
index d4f0561..d5262d8 100644
--- a/src/par/MESH_Partition.c
+++ b/src/par/MESH_Partition.c
@@ -117,10 +117,11 @@ extern "C" {
       attrib = MESH_Attrib(mesh,j);
       MAttrib_Get_Name(attrib,attname);
       att_type = MAttrib_Get_Type(attrib);
+      if (att_type == POINTER) continue; /* pointers are not meaningful elsewhere */
       ncomp = MAttrib_Get_NumComps(attrib);
       mtype = MAttrib_Get_EntDim(attrib);
       for (i = 0; i < num; i++) {
-	if (ncomp == 1)
+	if (att_type != VECTOR && att_type != TENSOR)
 	  attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype);
 	else
 	  attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype, ncomp);
diff --git a/src/par/MESH_Partition_and_Send.c b/src/par/MESH_Partition_and_Send.c
index b2f93bb..5281c1b 100644
--- a/src/par/MESH_Partition_and_Send.c
+++ b/src/par/MESH_Partition_and_Send.c
@@ -340,6 +340,11 @@ extern "C" {
     }
 
 
+    /* The temporary links to the parent mesh are not needed any more */
+
+    l2gatt = MESH_AttribByName(submeshes[rank],"Local2Global");
+    if (l2gatt) MAttrib_Delete(l2gatt);
+
     if (*mysubmesh == NULL)
       *mysubmesh = submeshes[rank];
     else
diff --git a/src/par/MESH_Recv_Attribute.c b/src/par/MESH_Recv_Attribute.c
index bd432ea..3a7204d 100644
--- a/src/par/MESH_Recv_Attribute.c
+++ b/src/par/MESH_Recv_Attribute.c
@@ -134,12 +134,10 @@ extern "C" {
       if (rval != 0.0) nullval = 0;
     }
     else {
-      if (ncomp > 1) {
-        nullval = 0;  /* always add vectors */
-        rval_arr = (double *) malloc(ncomp*sizeof(double));
-        for(k = 0; k < ncomp; k++)
-          rval_arr[k] = list_value_double[j*ncomp+k];
-      }
+      nullval = 0;  /* always add vectors */
+      rval_arr = (double *) malloc(ncomp*sizeof(double));
+      for(k = 0; k < ncomp; k++)
+        rval_arr[k] = list_value_double[j*ncomp+k];
     }
     if (nullval) continue; /* Don't waste time initializing to zero */
 
@@ -149,7 +147,7 @@ extern "C" {
    free(list_info);
    if (att_type == INT) 
      free(list_value_int);
-   else if (att_type == DOUBLE)
+   else
      free(list_value_double);
 
   return 1;
diff --git a/src/par/MESH_Recv_AttributeMetaData.c b/src/par/MESH_Recv_AttributeMetaData.c
index 36054a3..fcaab3f 100644
--- a/src/par/MESH_Recv_AttributeMetaData.c
+++ b/src/par/MESH_Recv_AttributeMetaData.c
@@ -81,7 +81,7 @@ extern "C" {
       att_type = list_attr_info[i] & 7;
       mtype = (list_attr_info[i] >> 3) & 7;
       ncomp = list_attr_info[i] >> 6;
-      if(ncomp == 1)
+      if(att_type == INT || att_type == DOUBLE)
         attrib =  MAttrib_New(mesh, attname, att_type, mtype);
       else
         attrib =  MAttrib_New(mesh, attname, att_type, mtype, ncomp);
diff --git a/src/par/MESH_Send_Attribute.c b/src/par/MESH_Send_Attribute.c
index e45d1ae..3d7da7b 100644
--- a/src/par/MESH_Send_Attribute.c
+++ b/src/par/MESH_Send_Attribute.c
@@ -125,12 +125,12 @@ extern "C" {
       if (att_type == INT)
         list_value_int[j] = ival;
       else {
-        if(ncomp == 1)
+        if (att_type == DOUBLE)
           list_value_double[j] = rval;
-        if(ncomp > 1) {
-          rval_arr = (double *)pval;
+        else {
+          rval_arr = (double *)pval;  /* NULL if entity has no value */
           for(k = 0; k < ncomp; k++)
-            list_value_double[ncomp*j+k] = rval_arr[k];
+            list_value_double[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
         }
       }
     }
diff --git a/src/par/MESH_Send_MSet.c b/src/par/MESH_Send_MSet.c
index c71f639..8b13751 100644
--- a/src/par/MESH_Send_MSet.c
+++ b/src/par/MESH_Send_MSet.c
@@ -58,10 +58,21 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    if (!nent) {
-      free(list_info);
-      return 1;
+    /* track the buffers used for sending */
+
+    if (*maxptrs2free == 0) {
+      *maxptrs2free = 25;
+      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
+      *numptrs2free = 0;
     }
+    else if (*maxptrs2free < (*numptrs2free) + 2) {
+      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
+      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
+    }
+
+    (*ptrs2free)[(*numptrs2free)++] = list_info;
+
+    if (!nent) return 1;  /* list_info is still in use by the send */
 
     /* attribute index and global id */ 
     num = 2*nent;
@@ -79,19 +90,6 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    /* track the buffers used for sending */
-
-    if (*maxptrs2free == 0) {
-      *maxptrs2free = 25;
-      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
-      *numptrs2free = 0;
-    }
-    else if (*maxptrs2free < (*numptrs2free) + 2) {
-      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
-      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
-    }
-
-    (*ptrs2free)[(*numptrs2free)++] = list_info;
     (*ptrs2free)[(*numptrs2free)++] = list_value_int;  
   
     return 1;
-- 
2.43.0


From 97cbb9c7bb927cff8e093e7943adef3191b33fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 53/60] fix: keep the precision of native files and refuse cut
 or inconsistent ones

---
 src/base/MESH_InitFromFile.c | 37 +++++++++++++++++++++++++-----------
 src/base/MESH_WriteToFile.c  | 34 ++++++++++++++++-----------------
 2 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index 9fad8e3..45a56df 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -73,6 +73,9 @@ extern "C" {
   if (status == EOF)
     MSTK_Report("MESH_InitFromFile",
 		"Premature end of file before any mesh data is read",MSTK_FATAL);
+  else if (status < 5)
+    MSTK_Report("MESH_InitFromFile",
+		"Error in reading mesh representation and sizes",MSTK_FATAL);
 
 
   found = 0;
@@ -124,7 +127,7 @@ extern "C" {
       if (status == EOF)
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading vertices",MSTK_FATAL);
-      else if (status == 0)
+      else if (status < 5)
 	MSTK_Report("MESH_InitFromFile",
 		    "Error in reading vertex data",MSTK_FATAL);
 
@@ -152,8 +155,10 @@ extern "C" {
     if (mesh->ne || mesh->nf || mesh->nr)
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file after vertex data",MSTK_FATAL);
-    else
-      return 0;
+    else {
+      fclose(fp);
+      return 1;
+    }
   }
 
 
@@ -260,7 +265,7 @@ extern "C" {
 	if (status == EOF)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading edges",MSTK_FATAL);
-	else if (status == 0)
+	else if (status < 4)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading edge data",MSTK_FATAL);
 
@@ -291,7 +296,7 @@ extern "C" {
 	if (status == EOF)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading edges",MSTK_FATAL);
-	else if (status == 0)
+	else if (status < 4)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading edge data",MSTK_FATAL);
       }
@@ -300,8 +305,9 @@ extern "C" {
     processed_edges = 1;
   }
   else {
-    if (file_reptype >= F1 && file_reptype <= F4) {
+    if (file_reptype >= F1 && file_reptype <= F4 && mesh->ne) {
       MSTK_Report("MESH_InitFromFile","Expected edge information",MSTK_ERROR);
+      fclose(fp);
       return 0;
     }
   }
@@ -390,7 +396,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading face data",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status < 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading face data",MSTK_FATAL);
 	  
@@ -477,7 +483,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading faces",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status < 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading face data",MSTK_FATAL);
 	  
@@ -591,7 +597,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading regions",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status < 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading region data",MSTK_FATAL);
 	  
@@ -677,7 +683,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			  "Premature end of file while reading region",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status < 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading region data",MSTK_FATAL);
 	  
@@ -702,6 +708,11 @@ extern "C" {
       }
     }
   }
+  else if (mesh->nr) {
+    MSTK_Report("MESH_InitFromFile","Expected region information",MSTK_ERROR);
+    fclose(fp);
+    return 0;
+  }
 
   if (processed_regions) {
     status = fscanf(fp,"%s",temp_str);
@@ -899,7 +910,7 @@ extern "C" {
 	if (status == EOF)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading attributes",MSTK_FATAL);
-	else if (status == 0)
+	else if (status < 2)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading attribute data",MSTK_FATAL);
 	
@@ -923,8 +934,12 @@ extern "C" {
 	    rval_arr = (double *) malloc(ncomp*sizeof(double));
 	    for (j = 0; j < ncomp; j++) {
 	      status = fscanf(fp,"%lf",&(rval_arr[j]));
+	      if (status != 1) break;
 	    }
 	  }
+	  if (status != 1)
+	    MSTK_Report("MESH_InitFromFile",
+			"Error in reading attribute values",MSTK_FATAL);
 
 	  switch (dim) {
 	  case MVERTEX:
diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index 2973c5d..bec9ebf 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -122,7 +122,7 @@ extern "C" {
     gdim = MV_GEntDim(mv);
     gid = MV_GEntID(mv);
 
-    fprintf(fp,"%24.16lf %24.16lf %24.16lf   %d %d\n",
+    fprintf(fp,"%24.16le %24.16le %24.16le   %d %d\n",
 	    xyz[0],xyz[1],xyz[2],gdim,gid);
     
   }
@@ -448,12 +448,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -473,12 +473,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -498,12 +498,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -524,12 +524,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -550,12 +550,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -573,12 +573,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -596,12 +596,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -619,12 +619,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
-- 
2.43.0


From 323ee2962c4066aae2718ad7c042e5c4f1a6d800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 54/60] fix: write STL, OFF and DX files as their formats
 define

---
 src/io/MESH_ExportToDXBin.c | 280 +++++++++++-------------------------
 src/io/MESH_ExportToOFF.c   |  16 ++-
 src/io/MESH_ExportToSTL.c   |   7 +-
 3 files changed, 99 insertions(+), 204 deletions(-)

diff --git a/src/io/MESH_ExportToDXBin.c b/src/io/MESH_ExportToDXBin.c
index 173992f..ff25d3e 100644
--- a/src/io/MESH_ExportToDXBin.c
+++ b/src/io/MESH_ExportToDXBin.c
@@ -11,29 +11,27 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 #include <string.h>
 #include "MSTK.h"
 
-void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
-  int i, k, k1, bt, bq, bgf, bpy, bpr, bh, nreg, np, offset;
-  int nvf, nrf, objnum, fed0, fed1, fed2, rfd0, flip;
+int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
+  int i, k, bt, bq, bgf, bpy, bpr, bh, nreg, np, offset;
+  int nvf, objnum;
   int nbtris=0, nbquads=0, ngenf=0, ntets=0, npyrs=0, nprisms=0, nhexes=0;
   int *idbtri=0, *idbquad=0, *idbtet=0, *idbprm=0, *idbpyr=0, *idbhex=0;
-  int *edgarr, *loopstartarr, *facearr, *polcenidx;
+  int *edgarr=0, *loopstartarr=0, *facearr=0, *polcenidx, *vpos;
   int nfaces, nedges=0, index, maxvf, maxtri=0;
-  int genpoly2, id, nfv;
+  int id, nfv, maxid;
   FILE *fout, *fdat;
-  MVertex_ptr vertex, evert0, evert1, lvert[8];
-  List_ptr verts, elist, rfaces, fedges;
+  MVertex_ptr vertex;
+  List_ptr verts;
   MRegion_ptr reg;
-  MFace_ptr face, rface, rface0, rface1, rface2;
-  MEdge_ptr edge, ecmn;
+  MFace_ptr face;
   float  flxyz[3];
   float *dattri=0, *datquad=0, *datgenf=0, *dattet=0, *datprm=0, *datpyr=0, *dathex=0;
   double xyz[3], fxyz[MAXPV2][3];
   double (*polcen2)[3];
   char   basename[256], datfname[256];
   char   xsb[4];
-  int rvtmpl[4][8]={{0,1,2,3,-1,-1,-1,-1},
-		    {0,1,2,3,4,-1,-1,-1},
-		    {0,1,2,3,4,5,-1,-1},
+  int rvtmpl[3][8]={{0,1,3,2,4,4,4,4},
+		    {0,1,2,2,3,4,5,5},
 		    {0,1,3,2,4,5,7,6}};
   int haveModel = 1;
  
@@ -47,13 +45,20 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
   /* Write out vertex coordinates */
   
+  /* Elements refer to vertices by their position in the file */
+
+  index = 0; maxid = 0;
+  while( (vertex = MESH_Next_Vertex(mesh,&index)) )
+    if (MV_ID(vertex) > maxid) maxid = MV_ID(vertex);
+  vpos = (int *) calloc(maxid+1,sizeof(int));
+
   index = 0;
   np = 0;
   while( (vertex = MESH_Next_Vertex(mesh,&index)) ){
     MV_Coords(vertex,xyz);
     for (i = 0; i < 3; i++) flxyz[i] = (float) xyz[i];
     fwrite((void *)flxyz,sizeof(float),3,fdat);
-    np++;
+    vpos[MV_ID(vertex)] = np++;
   }
 
 
@@ -69,8 +74,11 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   /* We are still not checking for the center point being inside the
      polygon which may be non-convex */
   
-  polcenidx = (int *) malloc((nfaces+1)*sizeof(int));
-  polcen2 = (double (*)[3]) malloc((nfaces+1)*sizeof(double [3]));
+  index = 0; maxid = 0;
+  while ((face = MESH_Next_Face(mesh,&index)))
+    if (MF_ID(face) > maxid) maxid = MF_ID(face);
+  polcenidx = (int *) malloc((maxid+1)*sizeof(int));
+  polcen2 = (double (*)[3]) malloc((maxid+1)*sizeof(double [3]));
   
   index = 0; bgf = 0; maxvf = 0;
   while ((face = MESH_Next_Face(mesh,&index))) {
@@ -81,8 +89,6 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	maxvf = nvf;
       
       if (nvf > 3) {
-	genpoly2 = 1;
-	
 	id = MF_ID(face);
 	
 	MF_Coords(face,&nfv,fxyz);
@@ -119,8 +125,13 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	  dattri = (float *)malloc(maxtri*sizeof(float));
 	}
 	nbtris++;
+	if (nbtris > maxtri) {
+	  maxtri = 2*nbtris;
+	  idbtri = (int *) realloc(idbtri,3*maxtri*sizeof(int));
+	  dattri = (float *) realloc(dattri,maxtri*sizeof(float));
+	}
 	for (k = 0; k < nvf; k++)
-	  idbtri[bt++] = MV_ID(List_Entry(verts,k))-1;	
+	  idbtri[bt++] = vpos[MV_ID(List_Entry(verts,k))];	
 	dattri[nbtris-1] = MF_GEntID(face);
       }
       /* We have to disallow direct writing of quads since 
@@ -134,9 +145,9 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	}
 	nbquads++;
 	for (k = 0; k < 2; k++)
-	  idbquad[bq++] = MV_ID(List_Entry(verts,k))-1;
-	idbquad[bq++] = MV_ID(List_Entry(verts,3))-1;
-	idbquad[bq++] = MV_ID(List_Entry(verts,2))-1;	
+	  idbquad[bq++] = vpos[MV_ID(List_Entry(verts,k))];
+	idbquad[bq++] = vpos[MV_ID(List_Entry(verts,3))];
+	idbquad[bq++] = vpos[MV_ID(List_Entry(verts,2))];	
 	datquad[nbquads-1] = MF_GEntID(face);
       }
       */
@@ -154,8 +165,8 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	    idbtri = (int *) realloc(idbtri,3*maxtri*sizeof(int));
 	    dattri = (float *) realloc(dattri,maxtri*sizeof(float));
 	  }
-	  idbtri[bt++] = MV_ID(List_Entry(verts,k))-1;
-	  idbtri[bt++] = MV_ID(List_Entry(verts,(k+1)%nvf))-1;
+	  idbtri[bt++] = vpos[MV_ID(List_Entry(verts,k))];
+	  idbtri[bt++] = vpos[MV_ID(List_Entry(verts,(k+1)%nvf))];
 	  idbtri[bt++] = polcenidx[MF_ID(face)];
 	  dattri[nbtris-1] = MF_GEntID(face);
 	}
@@ -205,7 +216,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	nvf = List_Num_Entries(verts);
 
 	for (i = 0; i < nvf; i++)
-	  edgarr[bgf++] = MV_ID(List_Entry(verts,i))-1;
+	  edgarr[bgf++] = vpos[MV_ID(List_Entry(verts,i))];
 
 	List_Delete(verts);
       }
@@ -213,11 +224,11 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
     
     if (ngenf) {
       fwrite((void *)edgarr,sizeof(int),nedges,fdat);
-      fwrite((void *)loopstartarr,sizeof(int),nfaces,fdat);
-      fwrite((void *)facearr,sizeof(int),nfaces,fdat);
+      fwrite((void *)loopstartarr,sizeof(int),ngenf,fdat);
+      fwrite((void *)facearr,sizeof(int),ngenf,fdat);
       /**/
       if (haveModel)
-	fwrite((void *)datgenf,sizeof(float),nfaces,fdat);
+	fwrite((void *)datgenf,sizeof(float),ngenf,fdat);
       /**/
     } 
   }
@@ -229,180 +240,48 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
     bt = bpr = bpy = bh = 0;
     index = 0; i = 0; ntets = nprisms = npyrs = nhexes = 0;
+    idbtet = (int *)malloc(4*nreg*sizeof(int));
+    dattet = (float *)malloc(nreg*sizeof(float));
+    idbpyr = (int *)malloc(8*nreg*sizeof(int));
+    datpyr = (float *)malloc(nreg*sizeof(float));
+    idbprm = (int *)malloc(8*nreg*sizeof(int));
+    datprm = (float *)malloc(nreg*sizeof(float));
+    idbhex = (int *)malloc(8*nreg*sizeof(int));
+    dathex = (float *)malloc(nreg*sizeof(float));
+
     while ((reg = MESH_Next_Region(mesh,&index))) {
 
-      for (k = 0; k < 8; k++) lvert[k]=0;
+      verts = MR_Vertices(reg);
 
-      nrf = MR_Num_Faces(reg);
-      switch(nrf) {
-      case 4:
-	if (!idbtet) {
-	  idbtet = (int *)malloc(4*nreg*sizeof(int));
-	  dattet = (float *)malloc(nreg*sizeof(float));
-	}
-	verts = MR_Vertices(reg);
-        for (k = 0; k < 4; k++) {
-	  k1 = rvtmpl[0][k];
-	  idbtet[bt++] = MV_ID(List_Entry(verts,k))-1;
-	}
-	List_Delete(verts);
-	ntets++;
-
-	dattet[ntets-1] = MR_GEntID(reg);
+      /* In DX, elements other than tets are written as (degenerate) cubes */
 
+      switch (MR_ElementType(reg)) {
+      case TET:
+        for (k = 0; k < 4; k++)
+	  idbtet[bt++] = vpos[MV_ID(List_Entry(verts,k))];
+	dattet[ntets++] = MR_GEntID(reg);
 	break;
-
-      case 5:
-	rfaces = MR_Faces(reg);
-	rface0 = List_Entry(rfaces,0);
-	rfd0 = MR_FaceDir_i(reg,0);
-
-	switch (MF_Num_Edges(rface0)) {
-
-	case 3: /****** TRIANGULAR PRISM *******/
-	  if (!idbprm) {
-	    idbprm = (int *)malloc(6*nreg*sizeof(int));
-	    datprm = (float *)malloc(nreg*sizeof(float));
-	  }
-
-	  verts =  MF_Vertices(rface0,!rfd0,0);
-	  for (k = 0; k < 3; k++) 
-	    lvert[k] = List_Entry(verts,k);
-	  List_Delete(verts);
-
-	  elist = MF_Edges(rface0,!rfd0,lvert[0]);
-	  ecmn = List_Entry(elist,0);
-	  List_Delete(elist);
-	  fed0 = MF_EdgeDir(rface0,ecmn);
-
-	  rface1 = NULL;
-	  for (k = 1; k < 6; k++) {
-	    rface = List_Entry(rfaces,k);
-	    if (rface != rface0 && MF_UsesEntity(rface,ecmn,1)) {
-	      rface1 = rface;
-	      break;
-	    }
-	  }
-	  fed1 = MF_EdgeDir(rface1,ecmn);
-
-	  fedges = MF_Edges(rface1,1,0);
-	  evert0 = evert1 = NULL;
-	  for (k = 0; k < 4; k++) {
-	    edge = List_Entry(fedges,k);
-	    if (edge == ecmn)
-	      continue;
-	    evert0 = ME_Vertex(edge,0); evert1 = ME_Vertex(edge,1);
-	    if (evert0 != lvert[0] && evert1 != lvert[0] &&
-		evert0 != lvert[1] && evert1 != lvert[1]) {
-	      ecmn = edge;
-	      break;
-	    }
-	  }
-	  List_Delete(fedges);
-	  fed2 = MF_EdgeDir(rface1,ecmn);
-
-	  flip = 0;
-	  if (fed0^(!rfd0)) /* lvert0 and lvert1 are opp to evert00,evert01 */
-	    flip = !flip;
-	  if (fed1 == fed2) /* edges pointing in different dirs w.r.t face 1 */
-	    flip = !flip;
-	  lvert[3] = flip==0 ? evert0 : evert1;
-	  lvert[4] = flip==0 ? evert1 : evert0;
-
-	  rface2 = 0;
-	  for (k = 1; k < 5; k++) {
-	    rface = List_Entry(rfaces,k);
-	    if (rface != rface0 && rface != rface1 && 
-		MF_UsesEntity(rface,ecmn,1)){
-	      rface2 = rface;
-	      break;
-	    }
-	  }
-
-	  /* Vertex opposite to edge, ecmn, in face, rface2 */
-	  verts = MF_Vertices(rface2,1,0);
-	  for (k = 0; k < 3; k++) {
-	    vertex = List_Entry(verts,k);
-	    if (!ME_UsesEntity(ecmn,vertex,0)) {
-	      lvert[5] = vertex;
-	    }
-	  }
-	  List_Delete(verts);
-	    
-	  idbprm[bpr]   = MV_ID(lvert[0])-1; 
-	  idbprm[bpr+1] = MV_ID(lvert[1])-1;
-	  idbprm[bpr+2] = MV_ID(lvert[2])-1; 
-	  idbprm[bpr+3] = MV_ID(lvert[2])-1;
-	  idbprm[bpr+4] = MV_ID(lvert[3])-1; 
-	  idbprm[bpr+5] = MV_ID(lvert[4])-1;
-	  idbprm[bpr+6] = MV_ID(lvert[5])-1; 
-	  idbprm[bpr+7] = MV_ID(lvert[5])-1;
-	  bpr += 8;
-	  nprisms++;
-
-	  datprm[nprisms-1] = MR_GEntID(reg);
-	  break;
-
-	case 4: /***** PYRAMID *****/
-	  if (!idbpyr) {
-	    idbpyr = (int *)malloc(5*nreg*sizeof(int));
-	    datpyr = (float *)malloc(nreg*sizeof(float));
-	  }
-
-	  verts =  MF_Vertices(rface0,!MR_FaceDir_i(reg,0),0);
-	  for (k = 0; k < 4; k++)
-	    lvert[k] = List_Entry(verts,k);
-	  List_Delete(verts);
-	  rface1 = List_Entry(rfaces,1); /* has to be connected to rface0 */
-	  fedges = MF_Edges(rface1,1,0);
-	  evert0 = evert1 = NULL;
-	  for (k = 0; k < 3; k++) {
-	    edge = List_Entry(fedges,k);
-	    if (!MF_UsesEntity(rface0,edge,1)) {
-	      evert0 = ME_Vertex(edge,0);
-	      if (evert0 == lvert[0] || evert0 == lvert[1] || 
-		  evert0 == lvert[2] || evert0 == lvert[3])
-		lvert[4] = ME_Vertex(edge,1);
-	      else
-		lvert[4] = evert0;
-	      break;
-	    }
-	  }
-	  List_Delete(fedges);
-	  idbpyr[bpy]   = MV_ID(lvert[0])-1; 
-	  idbpyr[bpy+1] = MV_ID(lvert[1])-1;
-	  idbpyr[bpy+2] = MV_ID(lvert[3])-1; 
-	  idbpyr[bpy+3] = MV_ID(lvert[2])-1;
-	  idbpyr[bpy+4] = idbpyr[bpy+5] = idbpyr[bpy+6] = idbpyr[bpy+7] = 
-	    MV_ID(lvert[4])-1;
-	  bpy += 8;
-	  npyrs++;
-
-	  datpyr[npyrs-1] = MR_GEntID(reg);
-
-	  break;
-	}
+      case PYRAMID:
+        for (k = 0; k < 8; k++)
+	  idbpyr[bpy++] = vpos[MV_ID(List_Entry(verts,rvtmpl[0][k]))];
+	datpyr[npyrs++] = MR_GEntID(reg);
 	break;
-      case 6: /******* HEXAHEDRON *********/
-	if (!idbhex) {
-	  idbhex = (int *)malloc(8*nreg*sizeof(int));
-	  dathex = (float *)malloc(nreg*sizeof(float));
-	}
-
-	verts = MR_Vertices(reg);
-        for (k = 0; k < 8; k++) {
-	  k1 = rvtmpl[3][k];
-	  idbhex[bh++] = MV_ID(List_Entry(verts,k1))-1;
-	}
-	List_Delete(verts);
-	nhexes++;
-
-	dathex[nhexes-1] = MR_GEntID(reg);
-
+      case PRISM:
+        for (k = 0; k < 8; k++)
+	  idbprm[bpr++] = vpos[MV_ID(List_Entry(verts,rvtmpl[1][k]))];
+	datprm[nprisms++] = MR_GEntID(reg);
+	break;
+      case HEX:
+        for (k = 0; k < 8; k++)
+	  idbhex[bh++] = vpos[MV_ID(List_Entry(verts,rvtmpl[2][k]))];
+	dathex[nhexes++] = MR_GEntID(reg);
 	break;
       default: /* General - have to do it some other way */
-	fprintf(stderr,"Not handled\n");
+	MSTK_Report("MESH_ExportToDXBin",
+		    "Polyhedra cannot be written to DX files",MSTK_WARN);
       }
+
+      List_Delete(verts);
     }
 
     if (ntets) {
@@ -428,16 +307,19 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   }
   fclose(fdat);
     
-  free(idbtet);
+  free(idbtet); free(dattet);
+  free(idbpyr); free(datpyr);
+  free(idbprm); free(datprm);
+  free(idbhex); free(dathex);
+  free(edgarr); free(loopstartarr); free(facearr); free(datgenf);
+  free(polcenidx); free(polcen2); free(vpos);
 
   /* Now write into the .dx file */
   fout = fopen(fname,"w");
   
-#ifdef i686_linux
-  strcpy(xsb,"lsb");
-#else 
-  strcpy(xsb,"msb");
-#endif
+  /* The data file has the byte order of this machine */
+  i = 1;
+  strcpy(xsb, *((char *) &i) == 1 ? "lsb" : "msb");
 
   objnum = 1;
   fprintf(fout,"object %d class array type float rank 1 shape 3 items %d %3s binary\n",objnum++,np,xsb);
@@ -630,5 +512,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
   fprintf(fout,"end\n");
   fclose(fout);
+
+  return 1;
 }
 
diff --git a/src/io/MESH_ExportToOFF.c b/src/io/MESH_ExportToOFF.c
index aad997f..9c739dc 100644
--- a/src/io/MESH_ExportToOFF.c
+++ b/src/io/MESH_ExportToOFF.c
@@ -42,13 +42,20 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
   fprintf(fp,"%d %d %d\n",MESH_Num_Vertices(mesh), MESH_Num_Faces(mesh), MESH_Num_Edges(mesh));
 
 
-  /* Write vertex info */
+  /* Write vertex info - faces refer to vertices by their position in
+     the file counted from 0 */
   
-  int idx = 0;
+  int idx = 0, maxid = 0, nv = 0;
   MVertex_ptr mv;
+  while ((mv = MESH_Next_Vertex(mesh, &idx)))
+    if (MV_ID(mv) > maxid) maxid = MV_ID(mv);
+  int *vpos = (int *) calloc(maxid+1,sizeof(int));
+
+  idx = 0;
   while ((mv = MESH_Next_Vertex(mesh, &idx))) {
     double xyz[3];
     MV_Coords(mv, xyz);
+    vpos[MV_ID(mv)] = nv++;
     fprintf(fp,"%20.12lf %20.12lf %20.12lf\n",xyz[0],xyz[1],xyz[2]);
   }
 
@@ -60,11 +67,14 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
     List_ptr fverts = MF_Vertices(mf,1,0);
     fprintf(fp,"%d ",List_Num_Entries(fverts));
     for (int i = 0; i < List_Num_Entries(fverts); i++)
-      fprintf(fp," %d",MV_ID(List_Entry(fverts,i)));
+      fprintf(fp," %d",vpos[MV_ID(List_Entry(fverts,i))]);
     fprintf(fp,"\n");
     List_Delete(fverts);
   }
 
+  free(vpos);
+  fclose(fp);
+
   return 1;
 }
 
diff --git a/src/io/MESH_ExportToSTL.c b/src/io/MESH_ExportToSTL.c
index ad4ed5b..40d6a80 100644
--- a/src/io/MESH_ExportToSTL.c
+++ b/src/io/MESH_ExportToSTL.c
@@ -86,11 +86,12 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
     fprintf(fp,"  outer loop\n");
     for (j = 0; j < 3; j++) 
       fprintf(fp,"    vertex %20.10lf %20.10lf %20.10lf\n",fxyz[j][0],fxyz[j][1],fxyz[j][2]);
-    fprintf(fp,"endloop");
-    fprintf(fp,"endfacet");
+    fprintf(fp,"  endloop\n");
+    fprintf(fp,"endfacet\n");
+    List_Delete(fverts);
   }
 
-  fprintf(fp,"endsolid");
+  fprintf(fp,"endsolid\n");
 
   fclose(fp);
 
-- 
2.43.0


From 490686853285b85e431aa0d232121bea6b6aa88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 55/60] fix: use the second face's own size for its dihedral
 angle normal

---
 src/hilev/MFs_DihedralAngle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hilev/MFs_DihedralAngle.c b/src/hilev/MFs_DihedralAngle.c
index c4c0d13..1eccf79 100644
--- a/src/hilev/MFs_DihedralAngle.c
+++ b/src/hilev/MFs_DihedralAngle.c
@@ -119,7 +119,7 @@ extern "C" {
 
     MSTK_VDiff3(fxyz[1],fxyz[0],vec1);
 
-    if (nfv1 == 3) { /* Triangles - always convex */
+    if (nfv2 == 3) { /* Triangles - always convex */
       MSTK_VDiff3(fxyz[2],fxyz[0],vec2);
     }
     else { /* Others - can be non-convex */
-- 
2.43.0


From e6f4ec9f88067c7901f304a2f31d712ac46c144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 56/60] fix: make the topology check report every inconsistency
 it finds, look at both ends of every edge, and survive inconsistent meshes

---
 src/hilev/MESH_CheckTopo.c | 110 ++++++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 37 deletions(-)

diff --git a/src/hilev/MESH_CheckTopo.c b/src/hilev/MESH_CheckTopo.c
index f8a7db3..4cc02bf 100644
--- a/src/hilev/MESH_CheckTopo.c
+++ b/src/hilev/MESH_CheckTopo.c
@@ -16,6 +16,27 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 extern "C" {
 #endif
 
+  /* Edges of a face leaving and entering one of its vertices when the
+     face is traversed in its positive direction; fails if the face
+     does not use the vertex or uses its edges in wrong directions */
+
+  static int face_edges_at_vertex(MFace_ptr f, MVertex_ptr v,
+                                  MEdge_ptr *eout, MEdge_ptr *ein) {
+    int i, nout = 0, nin = 0;
+    List_ptr fedges = MF_Edges(f,1,0);
+
+    for (i = 0; i < List_Num_Entries(fedges); i++) {
+      MEdge_ptr e = List_Entry(fedges,i);
+      int dir = MF_EdgeDir_i(f,i);
+      if (ME_Vertex(e,!dir) == v) { *eout = e; nout++; }
+      if (ME_Vertex(e,dir) == v) { *ein = e; nin++; }
+    }
+    List_Delete(fedges);
+
+    return (nout == 1 && nin == 1);
+  }
+
+
   /* Routine to check that the topological structure of the mesh is valid */
   /* Rao Garimella - 12/16/2010                                           */
 
@@ -126,28 +147,29 @@ extern "C" {
 
 	found = 0;
 	idx2 = 0;
-	while ((vf = List_Next_Entry(vfaces,&idx2))) {
+	while (vfaces && (vf = List_Next_Entry(vfaces,&idx2))) {
 	  if (MF_GEntDim(vf) == 2) {
 	    found = 1;
 	    break;
 	  }
 	}
-        List_Delete(vfaces);
+        if (vfaces) List_Delete(vfaces);
 
 	if (!found) {
 	  sprintf(mesg,"Vertex %-d classified on model face %-d but could not \n find connected face classified on this model face",vid,gvid);
 	  MSTK_Report(funcname,mesg,MSTK_WARN);
 	  valid = 0;
+	  continue;
 	}
 
 	fcur = vf;
 
-	fedges = MF_Edges(fcur,1,mv);
-	nfe = List_Num_Entries(fedges);
-	e0 = List_Entry(fedges,0);
-	ecur = e0;
-	enxt = List_Entry(fedges,nfe-1);
-	List_Delete(fedges);
+	if (!face_edges_at_vertex(fcur,mv,&e0,&enxt)) {
+	  sprintf(mesg,"Face %-d connected to vertex %-d but its edges at the vertex are inconsistent",MF_ID(fcur),vid);
+	  MSTK_Report(funcname,mesg,MSTK_ERROR);
+	  valid = 0;
+	  continue;
+	}
 	
 	done = 0; i = 0;
 	while (!done) {
@@ -155,14 +177,14 @@ extern "C" {
 	  efaces = ME_Faces(ecur);
 	  found = 0;
 	  idx3 = 0;
-	  while ((ef = List_Next_Entry(efaces,&idx3))) {
+	  while (efaces && (ef = List_Next_Entry(efaces,&idx3))) {
 	    if (ef != fcur && MF_GEntDim(ef) == 2 && MF_GEntID(ef) == gvid) {
 	      fcur = ef;
 	      found = 1;
 	      break;
 	    }
 	  }
-	  List_Delete(efaces);
+	  if (efaces) List_Delete(efaces);
 
 	  if (!found) {
 	    sprintf(mesg,"Could not find next boundary face connected to vertex %-d",vid);
@@ -171,21 +193,19 @@ extern "C" {
 	    break;
 	  }
 	   
-	  fedges = MF_Edges(fcur,1,mv);
-	  nfe = List_Num_Entries(fedges);
-
-          if (List_Entry(fedges,0) == ecur)
-            enxt = List_Entry(fedges,nfe-1);
-          else if (List_Entry(fedges,nfe-1) == ecur) {
-            enxt = List_Entry(fedges,0);
-            flipped = 1;
-          }
-          else {
-            sprintf(mesg,"Could not find next edge while traversing around vertex %-d on model face %-d",vid,gvid);
-            MSTK_Report(funcname,mesg,MSTK_ERROR);
-          }
-
-	  List_Delete(fedges);
+	  MEdge_ptr eout = NULL, ein = NULL;
+	  if (face_edges_at_vertex(fcur,mv,&eout,&ein) && eout == ecur)
+	    enxt = ein;
+	  else if (eout && ein == ecur) {
+	    enxt = eout;
+	    flipped = 1;
+	  }
+	  else {
+	    sprintf(mesg,"Could not find next edge while traversing around vertex %-d on model face %-d",vid,gvid);
+	    MSTK_Report(funcname,mesg,MSTK_ERROR);
+	    valid = 0;
+	    break;
+	  }
 
 	  if (enxt == e0)
 	    done = 1;
@@ -197,11 +217,12 @@ extern "C" {
 	if (!done) {
 	  sprintf(mesg,"Vertex %-d classified on model face %-d but could not  find ring of faces classified on this model face",vid,gvid);
 	  MSTK_Report(funcname,mesg,MSTK_WARN);
+	  valid = 0;
 	}
 
         if (done && flipped) {
           List_ptr fregs = MF_Regions(fcur);
-          if (List_Num_Entries(fregs) < 2) {
+          if (!fregs || List_Num_Entries(fregs) < 2) {
             sprintf(mesg,"Inconsistent orientations of boundary faces around vertex %-d",vid);
             MSTK_Report(funcname,mesg,MSTK_WARN);
           }
@@ -240,6 +261,7 @@ extern "C" {
       if (ME_Vertex(me,0) == ME_Vertex(me,1)) {
         sprintf(mesg,"Edge %-d has repeated vertices",eid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       for (i = 0; i < 2; i++) {
@@ -249,7 +271,7 @@ extern "C" {
 	gvid = MV_GEntID(ev);
 	gvdim = MV_GEntDim(ev);
 
-        if (gvdim != 4 && gvdim != 4) {  /* vertex and edge classifn is known */
+        if (gvdim != 4 && gedim != 4) {  /* vertex and edge classifn is known */
           if (gedim < gvdim) {
             sprintf(mesg,"Edge %-d classified on lower dimensional entity than  connected vertex %-d",eid,vid);
             MSTK_Report(funcname,mesg,MSTK_WARN);
@@ -263,12 +285,12 @@ extern "C" {
         }
 
 	vedges = MV_Edges(ev);
-	if (!List_Contains(vedges,me)) {
+	if (!vedges || !List_Contains(vedges,me)) {
 	  sprintf(mesg,"Edge %-d sees vertex %-d but not vice versa",eid,vid);
 	  MSTK_Report(funcname,mesg,MSTK_ERROR);
 	  valid = 0;
 	}
-	List_Delete(vedges);
+	if (vedges) List_Delete(vedges);
 
 	if (gedim == 2) {
 	  MFace_ptr ebf[2], fcur, fnxt;
@@ -284,7 +306,7 @@ extern "C" {
 	  nf = 0;
 	  efaces = ME_Faces(me);
 	  idx2 = 0;
-	  while ((ef = List_Next_Entry(efaces,&idx2))) {
+	  while (efaces && (ef = List_Next_Entry(efaces,&idx2))) {
 	    fid = MF_ID(ef);
 
 	    if (MF_GEntDim(ef) == 2) {
@@ -301,12 +323,13 @@ extern "C" {
 		ebf[1] = ef;
 	    }
 	  }
-	  List_Delete(efaces);
+	  if (efaces) List_Delete(efaces);
 
 	  if (nf != 2) {
 	    sprintf(mesg,"Boundary edge %-d is not connected to exactly two\n  faces classified on the boundary",eid);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+	    continue;
 	  }
 
 
@@ -326,11 +349,13 @@ extern "C" {
 	    sprintf(mesg,"Edge %-d connected to regions but face %-d is not",eid,fid);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+	    continue;
 	  }
 
 	  nfr = List_Num_Entries(fregs);
-	  for (i = 0; i < nfr; i++) {
-	    rcur = List_Entry(fregs,i);
+	  for (k = 0; k < nfr; k++) {
+	    fcur = ebf[0];
+	    rcur = List_Entry(fregs,k);
 	  
 	    rfaces = MR_Faces(rcur);
 	    idx3 = 0;
@@ -347,6 +372,9 @@ extern "C" {
 	    if (!found) {
 	      rid = MR_ID(rcur);
 	      sprintf(mesg,"Could not find second face in region %-d using edge %-d",rid,eid);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	      valid = 0;
+	      continue;
 	    }
 	    
 	    
@@ -362,14 +390,15 @@ extern "C" {
 	      
 	      fregs1 = MF_Regions(fcur);
 	      idx3 = 0;
-	      while ((fr = List_Next_Entry(fregs1,&idx3))) {
+	      found = 0;
+	      while (fregs1 && (fr = List_Next_Entry(fregs1,&idx3))) {
 		if (fr != rcur) {
 		  rcur = fr;
 		  found = 1;
 		  break;
 		}
 	      }
-	      List_Delete(fregs1);
+	      if (fregs1) List_Delete(fregs1);
 
 	      if (!found) {
 		sprintf(mesg,"Could not find next region around edge %-d",eid);
@@ -394,6 +423,9 @@ extern "C" {
 	      if (!found) {
 		rid = MR_ID(rcur);
 		sprintf(mesg,"Could not find second face in region %-d using edge %-d",rid,eid);
+		MSTK_Report(funcname,mesg,MSTK_ERROR);
+		valid = 0;
+		break;
 	      }
 	      
 	      if (++j > maxiter)
@@ -443,6 +475,7 @@ extern "C" {
       if (List_Num_Entries(fedges) < 3) {
         sprintf(mesg,"Face %-d has less than 3 edges",fid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       idx2 = 0;
@@ -460,16 +493,17 @@ extern "C" {
           else if (gedim == gfdim && geid != gfid) {
             sprintf(mesg,"Face %-d and edge %-d classified on different\n entities of the same dimension",fid,eid);
             MSTK_Report(funcname,mesg,MSTK_WARN);
+            valid = 0;
           }
         }
 
 	efaces = ME_Faces(fe);
-	if (!List_Contains(efaces,mf)) {
+	if (!efaces || !List_Contains(efaces,mf)) {
 	  sprintf(mesg,"Face %-d refers to edge %-d but not vice versa",fid,ME_ID(fe));
 	  MSTK_Report(funcname,mesg,MSTK_ERROR);
 	  valid = 0;
 	}
-	List_Delete(efaces);
+	if (efaces) List_Delete(efaces);
       }
       List_Delete(fedges);
       
@@ -521,6 +555,7 @@ extern "C" {
       if (nrf < 4) {
         sprintf(mesg,"Region %-d has less than 4 faces",rid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       /* Check that face to region and region to face links are consistent
@@ -570,6 +605,7 @@ extern "C" {
             sprintf(mesg,"Cannot find another face in region %-d sharing edge %-d (ID = %-d) of face with ID = %-d",MR_ID(mr),j,ME_ID(fe),MF_ID(rf));
             MSTK_Report(funcname,mesg,MSTK_ERROR);
             valid = 0;
+            continue;
           }
           
           int fedir_adj = MF_EdgeDir(rf2,fe);
-- 
2.43.0


From e171f91f2a196b6e7f62aed5c5868ebbf3f4ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 57/60] fix: GMV files: pyramids garbled, refused options left
 a truncated file, line elements, materials and attributes misread, crash on
 meshes of edges only

---
 src/io/MESH_ExportToGMV.c   |  27 +++--
 src/io/MESH_ImportFromGMV.c | 220 ++++++++++++++----------------------
 2 files changed, 105 insertions(+), 142 deletions(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 4e6f443..6dbe43e 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -77,7 +77,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   time_t                ctime;
 
   int			rtmpl[5][8] =   {{0,2,1,3,-1,-1,-1,-1},
-					 {0,3,2,1,4,-1,-1,-1},
+					 {4,0,1,2,3,-1,-1,-1},
 					 {3,4,5,0,1,2,-1,-1},
 					 {-1,-1,-1,-1,-1,-1,-1,-1},
 					 {4,5,6,7,0,1,2,3}};
@@ -103,6 +103,18 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   strcpy(modfilename,filename);
 #endif
 
+  if (opts && opts[1] == 1) {
+    idx = 0;
+    while ((face = MESH_Next_Face(mesh,&idx))) {
+      if ((fregs = MF_Regions(face)))
+        List_Delete(fregs);
+      else {
+        MSTK_Report(funcname,"vface2d not yet implemented",MSTK_WARN);
+        return 0;
+      }
+    }
+  }
+
   if (!(fp = fopen(modfilename,"w"))) {
     sprintf(mesg,"Cannot open file %s for writing",modfilename);
     MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -149,7 +161,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
       idgaps = 1;
    }
   nf = MESH_Num_Faces(mesh);
-  if (ne && !idgaps) {
+  if (nf && !idgaps) {
     maxid = 0;
     minid = 1e+9;
     idx = 0;
@@ -699,11 +711,6 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   
   if (ncells2) {
-    if (opts && opts[1] == 1) {
-      MSTK_Report(funcname,"vface2d not yet implemented",MSTK_WARN);
-      return 0;
-    }
-
     idx = 0;
     while ((face = List_Next_Entry(flist,&idx))) {
       int fmarked;
@@ -943,6 +950,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     if (ncells2) {
+      idx = 0;
       while ((face = List_Next_Entry(flist,&idx))) {
         int fmarked;
 #ifdef MSTK_USE_MARKERS
@@ -1003,7 +1011,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   /* Must write out other attributes that exist on mesh entities */ 
   /* If natt is 0, all attributes are to be written out */
   
-  if (nmeshatt) {
+  if (nmeshatt && natt >= 0) {
 
     /* Collect the attributes */
     
@@ -1011,6 +1019,9 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     
     for (i = 0, noutatt = 0; i < nmeshatt; i++) {
       attrib = MESH_Attrib(mesh,i);
+#ifndef MSTK_USE_MARKERS
+      if (attrib == cellmkatt) continue; /* internal to this routine */
+#endif
       
       attentdim = MAttrib_Get_EntDim(attrib);
       if ((attentdim == MVERTEX)  || (attentdim == MREGION) || 
diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 8419e30..4bab455 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -24,6 +24,9 @@ extern "C" {
   MFace_ptr rfaces[MAXPF3], mf, *vface=NULL;
   MEdge_ptr fedges[MAXPV3*2], me, *vedge=NULL;
   MVertex_ptr vtx[MAXPV3], mv;
+  MEntity_ptr cell;
+  List_ptr cells;  /* cells in the order of the file */
+  MType celltype;
   int **rfv_template=NULL;
   int i, j, k, k1, ic, nnodes=0, nvtx, nrf, nfe, vid, evid[2];
   int status, pnum, opp_pnum, matinfo=0, onwhat, ival;
@@ -37,7 +40,7 @@ extern "C" {
   int distributed=0;
 
   int rtmpl[5][8] = {{0,2,1,3,-1,-1,-1,-1},
-		     {1,2,3,4,0,-1,-1,-1},
+		     {4,0,1,2,3,-1,-1,-1},
 		     {3,4,5,0,1,2,-1,-1},
 		     {-1,-1,-1,-1,-1,-1,-1,-1},  /* dummy 7 node element */
 		     {4,5,6,7,0,1,2,3}};
@@ -132,12 +135,16 @@ extern "C" {
   /* READ THE REST OF THE FILE */
 
 
+  cells = List_New(0);
+
   done = 0; 
   while (!done) {
     status = fscanf(fp,"%s",temp_str);
-    if (status == EOF)
+    if (status == EOF) {
       MSTK_Report("MESH_ImportFromGMV","End of file but 'endgmv' not found?",
 		  MSTK_WARN);
+      break;
+    }
 
 
     /* READ COMMENTS IF THEY EXIST */
@@ -272,7 +279,8 @@ extern "C" {
 	  
 	  me = ME_New(mesh);
 	  for (j = 0; j < 2; j++)
-	    ME_Set_Vertex(me,0,vtx[j]);
+	    ME_Set_Vertex(me,j,vtx[j]);
+	  List_Add(cells,me);
 
 	  non_vface_cells = 1;
 	}
@@ -319,6 +327,7 @@ extern "C" {
 	  mf = MF_New(mesh);
 
 	  MF_Set_Vertices(mf,nvtx,vtx);
+	  List_Add(cells,mf);
 
 	  non_vface_cells = 1;
 	}
@@ -371,6 +380,7 @@ extern "C" {
 
 	  mr = MR_New(mesh);
 	  MR_Set_Vertices(mr,nvtx,vtx,0,NULL);
+	  List_Add(cells,mr);
 
 	  non_vface_cells = 1;
 	}
@@ -441,10 +451,12 @@ extern "C" {
 	    
 	    mf = MF_New(mesh);
 	    MF_Set_Vertices(mf,nvtx,vtx);
+	    List_Add(cells,mf);
 	  }
 	  else {
 	    mr = MR_New(mesh);
 	    MR_Set_Vertices(mr,nvtx,vtx,nrf,rfv_template);	  
+	    List_Add(cells,mr);
 	  }
 
 	  non_vface_cells = 1;
@@ -584,7 +596,7 @@ extern "C" {
 	}
 
 	if (vface2d) {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid <= j) {
 
 	    /* Edge must have already been defined for adjacent face */
 
@@ -609,7 +621,7 @@ extern "C" {
 	  }
 	}
 	else {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid <= j) {
 
 	    /* Face must have already been defined for adjacent region */
 
@@ -651,11 +663,14 @@ extern "C" {
 
 	  mf = MF_New(mesh);
 	  MF_Set_Edges(mf,nfe,fedges,fedirs);
+	  List_Add(cells,mf);
 
 	  free(vface2d_data[ic]);
 	}
 
 	free(vface2d_data);
+	free(vedge);
+	free(vedir);
       }
       else if (vface3d) {
 	for (ic = 0; ic < ncells; ic++) {
@@ -669,11 +684,14 @@ extern "C" {
 
 	  mr = MR_New(mesh);
 	  MR_Set_Faces(mr,nrf,rfaces,rfdirs);
+	  List_Add(cells,mr);
 
 	  free(vface3d_data[ic]);
 	}
 
 	free(vface3d_data);
+	free(vface);
+	free(vfdir);
       }
     }
     else if (strcmp(temp_str,"faces") == 0) {
@@ -767,6 +785,7 @@ extern "C" {
 	}
 
 	MR_Set_Faces(mr,nrf,rfaces,rfdirs);
+	List_Add(cells,mr);
       }
       
       free(vface);
@@ -806,34 +825,20 @@ extern "C" {
       }
 
       if (onwhat == 0) {
-	if (MESH_Num_Regions(mesh)) {
-	  for (j = 0; j < ncells; j++) {
-	    status = fscanf(fp,"%d",&(matnum));
-	    if (status == EOF) {
-	      MSTK_Report("MESH_ImportFromGMV",
-			  "Premature end of file while reading material data",
-			  MSTK_ERROR);
-	      return 0;
-	    }
-	    
-	    mr = MESH_Region(mesh,j);
-	    MR_Set_GEntID(mr,matnum);
+	for (j = 0; j < ncells; j++) {
+	  status = fscanf(fp,"%d",&(matnum));
+	  if (status == EOF) {
+	    MSTK_Report("MESH_ImportFromGMV",
+			"Premature end of file while reading material data",
+			MSTK_ERROR);
+	    return 0;
 	  }
-	}
-	else {
-	  for (j = 0; j < ncells; j++) {
-	    status = fscanf(fp,"%d",&(matnum));
-	    if (status == EOF) {
-	      MSTK_Report("MESH_ImportFromGMV",
-			  "Premature end of file while reading material data",
-			  MSTK_ERROR);
-	      return 0;
-	    }
 	    
-	    mf = MESH_Face(mesh,j);
-	    MF_Set_GEntID(mf,matnum);
-	    MF_Set_GEntDim(mf,2);
-	  }
+	  cell = j < List_Num_Entries(cells) ? List_Entry(cells,j) : NULL;
+	  if (!cell) continue;
+	  MEnt_Set_GEntID(cell,matnum);
+	  if (MEnt_Dim(cell) != MREGION)
+	    MEnt_Set_GEntDim(cell,MEnt_Dim(cell));
 	}
       }
       else if (onwhat == 1) {
@@ -868,6 +873,9 @@ extern "C" {
         MSTK_Report("MESH_ImportFromGMV",mesg_str,MSTK_ERROR);
       }
 
+      celltype = MESH_Num_Regions(mesh) ? MREGION :
+        (MESH_Num_Faces(mesh) ? MFACE : MEDGE);
+
       varsdone = 0;
       while (!varsdone) {
 
@@ -916,50 +924,28 @@ extern "C" {
 	      }
 	    }
 	    else {
-	      if (MESH_Num_Regions(mesh)) {
-		matt = MAttrib_New(mesh,temp_str,INT,MREGION);
-
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%d",&ival);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mr = MESH_Region(mesh,i);
-		  MEnt_Set_AttVal(mr,matt,ival,0,NULL);
-
-		  /* if material ids for elements is not given, then
-		     assign them using this info */
-
-		  if (!matinfo)
-		    MR_Set_GEntID(mr,ival);
+	      matt = MAttrib_New(mesh,temp_str,INT,celltype);
+
+	      for (i = 0; i < ncells; i++) {
+		status = fscanf(fp,"%d",&ival);
+		if (status == EOF) {
+		  MSTK_Report("MESH_ImportFromGMV",
+			      "Premature end of file while reading variable itetclr",
+			      MSTK_ERROR);
+		  return 0;
 		}
-	      }
-	      else {
-		matt = MAttrib_New(mesh,temp_str,INT,MFACE);
-
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%d",&ival);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mf = MESH_Face(mesh,i);
-		  MEnt_Set_AttVal(mf,matt,ival,0,NULL);
-
-		  /* if material ids for elements is not given, then
-		     assign them using this info */
-
-		  if (!matinfo) {
-		    MF_Set_GEntID(mf,ival);
-		    MF_Set_GEntDim(mf,2);
-		  }
+
+		cell = i < List_Num_Entries(cells) ? List_Entry(cells,i) : NULL;
+		if (!cell) continue;
+		MEnt_Set_AttVal(cell,matt,ival,0,NULL);
+
+		/* if material ids for elements is not given, then
+		   assign them using this info */
+
+		if (!matinfo) {
+		  MEnt_Set_GEntID(cell,ival);
+		  if (MEnt_Dim(cell) != MREGION)
+		    MEnt_Set_GEntDim(cell,MEnt_Dim(cell));
 		}
 	      }
 	    }
@@ -974,37 +960,20 @@ extern "C" {
 	      MSTK_Report("MESH_ImportFromGMV",
 			  "Constraints must be specified on nodes!!",MSTK_ERROR);
 	      
-	      if (MESH_Num_Regions(mesh)) {
-		matt = MAttrib_New(mesh,temp_str,INT,MREGION);
-
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%lf",&rval);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mr = MESH_Region(mesh,i);
-		  MEnt_Set_AttVal(mr,matt,(int) rval,0,NULL);
-		}
-	      }
-	      else {
-		matt = MAttrib_New(mesh,temp_str,INT,MFACE);
-
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%lf",&rval);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mf = MESH_Face(mesh,i);
-		  MEnt_Set_AttVal(mf,matt,(int) rval,0,NULL);
+	      matt = MAttrib_New(mesh,temp_str,INT,celltype);
+
+	      for (i = 0; i < ncells; i++) {
+		status = fscanf(fp,"%lf",&rval);
+		if (status == EOF) {
+		  MSTK_Report("MESH_ImportFromGMV",
+			      "Premature end of file while reading variable itetclr",
+			      MSTK_ERROR);
+		  return 0;
 		}
+
+		cell = i < List_Num_Entries(cells) ? List_Entry(cells,i) : NULL;
+		if (cell)
+		  MEnt_Set_AttVal(cell,matt,(int) rval,0,NULL);
 	      }
 	    }
 	    else {
@@ -1031,37 +1000,20 @@ extern "C" {
 
 	    if (onwhat == 0) { 
 
-	      if (MESH_Num_Regions(mesh)) {
-		matt = MAttrib_New(mesh,temp_str,DOUBLE,MREGION);
+	      matt = MAttrib_New(mesh,temp_str,DOUBLE,celltype);
 
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%lf",&rval);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mr = MESH_Region(mesh,i);
-		  MEnt_Set_AttVal(mr,matt,0,rval,NULL);
-		}
-	      }
-	      else {
-		matt = MAttrib_New(mesh,temp_str,DOUBLE,MFACE);
-
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%lf",&rval);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mf = MESH_Face(mesh,i);
-		  MEnt_Set_AttVal(mf,matt,0,rval,NULL);
+	      for (i = 0; i < ncells; i++) {
+		status = fscanf(fp,"%lf",&rval);
+		if (status == EOF) {
+		  MSTK_Report("MESH_ImportFromGMV",
+			      "Premature end of file while reading variable itetclr",
+			      MSTK_ERROR);
+		  return 0;
 		}
+
+		cell = i < List_Num_Entries(cells) ? List_Entry(cells,i) : NULL;
+		if (cell)
+		  MEnt_Set_AttVal(cell,matt,0,rval,NULL);
 	      }
 	    }
 	    else {
@@ -1107,7 +1059,7 @@ extern "C" {
   }
 
   fclose(fp);
-
+  List_Delete(cells);
 
 
 #ifdef MSTK_HAVE_MPI
-- 
2.43.0


From 41be99182539f0463ba034f7339deb9a51af3496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 58/60] fix: FLAG X3D files: crash on non-manifold meshes,
 material written under the wrong name, file name of the caller cut, sets
 written and read wrongly, reader lost region classification

---
 src/io/MESH_ExportToFLAGX3D.c   | 129 +++++++++++++++++++-------------
 src/io/MESH_ImportFromFLAGX3D.c |  88 ++++++++++++----------
 2 files changed, 122 insertions(+), 95 deletions(-)

diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index 0043f02..51e3c69 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -33,6 +33,17 @@ extern "C" {
   */
 
 
+/* Number under which an entity is written to the file */
+
+static int outID(MEntity_ptr ment, MAttrib_ptr idatt) {
+  int id;
+  double rval;
+  void *pval;
+
+  MEnt_Get_AttVal(ment,idatt,&id,&rval,&pval);
+  return id;
+}
+
 int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt, 
 			 const char **attnames, const int *opts, MSTK_Comm comm) {
   int			gentid, *gentities;
@@ -59,26 +70,14 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   void                 *pval=NULL;
   FILE		        *fp;
 
-  int                   pid = 0, numprocs = 1;
+  int                   pid = 1, numprocs = 1;  /* FLAG X3D counts processor IDs from 1 */
 #ifdef MSTK_HAVE_MPI
   MPI_Comm_size(comm,&numprocs);
   MPI_Comm_rank(comm,&pid);
-  pid += 1;  /* FLAG X3D counts processor IDs from 1 */
+  pid += 1;
 #endif
 
  
-  strcpy(modfilename,filename);
-  if (numprocs > 1)
-    sprintf(modfilename,"%s.%05d",filename,pid);
-
-  if (!(fp = fopen(modfilename,"w"))) {
-    fprintf(stderr,"MESH_ExportToFLAGX3D: Couldn't open output file %s\n",
-	    modfilename);
-    exit(2);
-  }
-  
-  char *basefilename = strtok(filename, ".");
-  
   nv = MESH_Num_Vertices(mesh);
   ne = MESH_Num_Edges(mesh);
   nf = MESH_Num_Faces(mesh);
@@ -89,6 +88,49 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     return 0;
   }
   
+  /* Every "face" of the format has to belong to one or two cells */
+
+  idx = 0;
+  while (nr && (face = MESH_Next_Face(mesh,&idx))) {
+    if ((fregs = MF_Regions(face)))
+      List_Delete(fregs);
+    else {
+      MSTK_Report("MESH_ExportToFLAGX3D",
+                  "Meshes of non-manifold objects not supported in FLAG X3D",
+                  MSTK_ERROR);
+      return 0;
+    }
+  }
+  idx = 0;
+  while (!nr && (edge = MESH_Next_Edge(mesh,&idx))) {
+    efaces = ME_Faces(edge);
+    nef = efaces ? List_Num_Entries(efaces) : 0;
+    if (efaces) List_Delete(efaces);
+    if (nef == 0 || nef > 2) {
+      MSTK_Report("MESH_ExportToFLAGX3D",
+                  "Meshes of non-manifold objects not supported in FLAG X3D",
+                  MSTK_ERROR);
+      return 0;
+    }
+  }
+
+  strcpy(modfilename,filename);
+  if (numprocs > 1)
+    sprintf(modfilename,"%s.%05d",filename,pid);
+
+  if (!(fp = fopen(modfilename,"w"))) {
+    fprintf(stderr,"MESH_ExportToFLAGX3D: Couldn't open output file %s\n",
+	    modfilename);
+    exit(2);
+  }
+  
+  /* file name without its extension */
+
+  char basefilename[256];
+  strcpy(basefilename, filename);
+  char *dot = strrchr(basefilename, '.');
+  if (dot && !strchr(dot, '/')) *dot = '\0';
+
   vidatt_tmp = MAttrib_New(mesh,"vidatt_tmp",INT,MVERTEX);
   eidatt_tmp = MAttrib_New(mesh,"eidatt_tmp",INT,MEDGE);
   fidatt_tmp = MAttrib_New(mesh,"fidatt_tmp",INT,MFACE);
@@ -229,8 +271,9 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       ngent++;
     }
   }
-  qsort(gentities, ngent, sizeof(int), compareINT);
+  free(allgentities);
 #endif
+  qsort(gentities, ngent, sizeof(int), compareINT);
   
   
   fprintf(fp,"   %-22s %10d\n","materials",ngent);
@@ -516,12 +559,14 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       }
       
       if (nr) {
-        if ((attentdim == MREGION) || (attentdim == MALLTYPE)) {
+        if (((attentdim == MREGION) || (attentdim == MALLTYPE)) &&
+            (atttype == INT || atttype == DOUBLE)) {
           cellatts[ncellatt++] = attrib;
         }
       }
       else if (nf) {
-        if ((attentdim == MFACE) || (attentdim == MALLTYPE)) {
+        if (((attentdim == MFACE) || (attentdim == MALLTYPE)) &&
+            (atttype == INT || atttype == DOUBLE)) {
           cellatts[ncellatt++] = attrib;
         }
       }
@@ -615,15 +660,6 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       fregs = MF_Regions(face);
       nfr = fregs ? List_Num_Entries(fregs) : 0;
 
-#ifdef DEBUG
-      if (nfr == 0) {
-        MSTK_Report("MESH_ExportToFLAGX3D",
-                    "Meshes of non-manifold objects not supported in FLAG X3D\n",
-                    MSTK_ERROR);
-        return -1;
-      }
-#endif
-
       MEnt_Get_AttVal(face,fidatt_tmp,&fid,&rval,&pval); 
       fprintf(fp,"% 10d",fid);
       k = 1;
@@ -792,16 +828,6 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       efaces = ME_Faces(edge);
       nef = efaces ? List_Num_Entries(efaces) : 0;
       
-#ifdef DEBUG
-      if (nef == 0 || nef > 2) {
-        MSTK_Report("MESH_ExportToFLAGX3D",
-                    "Meshes of non-manifold objects not supported in FLAG X3D",
-                    MSTK_ERROR);
-        return -1;
-      }
-#endif
-
-
       MEnt_Get_AttVal(edge,eidatt_tmp,&eid,&rval,&pval);
       fprintf(fp,"% 10d",eid);
       k = 1;
@@ -1097,8 +1123,9 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     while ((region = MESH_Next_Region(mesh,&idx))) {
       if (MR_PType(region) == PGHOST) continue;
       gentid = MR_GEntID(region);
-      if (!gentid) gentid = 1;
-      fprintf(fp,"% 10d",gentid);
+      for (i = 0; i < ngent; i++)  /* name of the material is its number */
+        if (gentities[i] == gentid) break;
+      fprintf(fp,"% 10d",i+1);
       k++;
       if (k%10 == 0)
         fprintf(fp,"\n");
@@ -1110,8 +1137,9 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     while ((face = MESH_Next_Face(mesh,&idx))) {
       if (MF_PType(face) == PGHOST) continue;
       gentid = MF_GEntID(face);
-      if (!gentid) gentid = 1;
-      fprintf(fp,"% 10d",gentid);
+      for (i = 0; i < ngent; i++)  /* name of the material is its number */
+        if (gentities[i] == gentid) break;
+      fprintf(fp,"% 10d",i+1);
       k++;
       if (k%10 == 0)
         fprintf(fp,"\n");
@@ -1158,14 +1186,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   for (i = 0; i < ncellatt; i++) {
     attrib = cellatts[i];
     atttype = MAttrib_Get_Type(attrib);
-    if (atttype == VECTOR || atttype == TENSOR) {
-      MSTK_Report("MESH_ExportToFLAGX3D", "Export of cell vectors and tensors to X3D file not implemented", MSTK_WARN);
-      continue;
-    }
-
     MAttrib_Get_Name(attrib,attname);
-    if (strcmp("_tmp",attname-4) == 0)
-      continue;
 
     fprintf(fp,"%s\n",attname);
     
@@ -1219,8 +1240,6 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     int ncomps = MAttrib_Get_NumComps(attrib);
 
     MAttrib_Get_Name(attrib,attname);
-    if (strcmp("_tmp",attname-4) == 0)
-      continue;
 
     fprintf(fp,"%s\n",attname);
     
@@ -1232,7 +1251,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       MEnt_Get_AttVal(vertex,attrib,&ival,&rval,(void **) &vval);
       
       for (k = 0; k < ncomps; k++)
-        fprintf(fp,"% 20.12E", vval[k]);
+        fprintf(fp,"% 20.12E", vval ? vval[k] : 0.0);
       for (k = ncomps; k < 3; k++)
         fprintf(fp,"% 20.12E", 0.0);  /* expects 3 components for nodal vecs */
       fprintf(fp,"\n");
@@ -1271,7 +1290,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       idx = 0;
       while ((region = MESH_Next_Region(mesh, &idx))) {
         if (MR_PType(region) != PGHOST && MR_GEntID(region) == gentities[g])
-          fprintf(fp, "% 10d\n", MR_ID(region));
+          fprintf(fp, "% 10d\n", outID(region, ridatt_tmp));
       }
       fprintf(fp,"\n");
 
@@ -1285,7 +1304,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       idx = 0;
       while ((face = MESH_Next_Face(mesh, &idx))) {
         if (MF_PType(face) != PGHOST && MF_GEntID(face) == gentities[g])
-          fprintf(fp, "% 10d\n", MF_ID(face));
+          fprintf(fp, "% 10d\n", outID(face, fidatt_tmp));
       }
       fprintf(fp,"\n");
       
@@ -1329,7 +1348,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     MEntity_ptr ment;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
       if (MEnt_PType(ment) != PGHOST)
-        fprintf(fp, "% 10d\n", MEnt_ID(ment));
+        fprintf(fp, "% 10d\n", outID(ment, nr ? ridatt_tmp : fidatt_tmp));
     fprintf(fp,"\n");
     idx2 = 0;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
@@ -1366,7 +1385,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     MEntity_ptr ment;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
       if (MEnt_PType(ment) != PGHOST || MEnt_OnParBoundary(ment))
-        fprintf(fp, "% 10d\n", MEnt_ID(ment));
+        fprintf(fp, "% 10d\n", outID(ment, vidatt_tmp));
 
     fclose(fp);
   }
@@ -1377,6 +1396,8 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   /* Clean up */
   
   free(gentities);
+  List_Delete(prtn_bndry_verts);
+  MAttrib_Delete(vmasteratt);
   
   idx = 0;
   while ((vertex = MESH_Next_Vertex(mesh,&idx)))
diff --git a/src/io/MESH_ImportFromFLAGX3D.c b/src/io/MESH_ImportFromFLAGX3D.c
index e1a3300..3bf6930 100644
--- a/src/io/MESH_ImportFromFLAGX3D.c
+++ b/src/io/MESH_ImportFromFLAGX3D.c
@@ -9,7 +9,6 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
-#include <libgen.h>
 #include <dirent.h>
 
 
@@ -43,24 +42,26 @@ extern "C" {
       b++;
 
     int lnew = l-b;
-    memcpy(string, string+b, lnew);
+    memmove(string, string+b, lnew);
     string[lnew] = '\0';
   }
 
-  int isRegFile(const struct dirent *item) {
-    if (!item) return 0;
-  }
-
   int getRegFileNames(const char *x3dfilename_in, int numprocs, int rank, char (**regFileNames)[256], char (**regNames)[256]) {
 
-    char x3dfilename[256];
-    strcpy(x3dfilename, x3dfilename_in);  /* hack to remove constness */
+    /* Split the file name into its directory (with the trailing slash)
+       and the part before the extension (and the rank) */
+
+    char dirname[256], basefilename[256];
+    const char *slash = strrchr(x3dfilename_in, '/');
+    int dirlen = slash ? slash + 1 - x3dfilename_in : 0;
+    memcpy(dirname, x3dfilename_in, dirlen);
+    dirname[dirlen] = '\0';
+    strcpy(basefilename, x3dfilename_in + dirlen);
+    char *ext = strstr(basefilename, ".x3d");
+    if (ext) *ext = '\0';
+    int baselen = strlen(basefilename);
 
-    char dirname[256];
-    strcpy(dirname, basename(x3dfilename));
-    if (strcmp(dirname,x3dfilename) == 0)
-      strcpy(dirname, ".");
-    DIR *dir_p = opendir(dirname);
+    DIR *dir_p = opendir(dirlen ? dirname : ".");
     int ncandidates = 0;
     if (!dir_p)
       return 0;
@@ -73,9 +74,7 @@ extern "C" {
     *regFileNames = malloc(ncandidates*sizeof(char[256]));
     *regNames = malloc(ncandidates*sizeof(char[256]));
 
-    char *basefilename = strtok(x3dfilename, ".");
-
-    dir_p = opendir(dirname);
+    dir_p = opendir(dirlen ? dirname : ".");
     int nfiles = 0;
     while ((diritem = readdir(dir_p))) {
       char fname[256];
@@ -85,15 +84,13 @@ extern "C" {
       if (!strstr(fname, ".Reg"))
         continue;
 
-      char *token = strtok(fname, ".");
-
       /* Does the base file name match the base of the x3d file name */
-      if (strcmp(basefilename, token) != 0)
+      if (strncmp(basefilename, fname, baselen) != 0 || fname[baselen] != '.')
         continue;                   /* doesn't correspond to this x3d file */
 
-      char *matname = (char *) strtok(NULL, ".");
+      char *matname = (char *) strtok(fname + baselen, ".");
       char *regstr  = (char *) strtok(NULL, ".");
-      if (strcmp(regstr, "Reg") != 0)  /* Sanity check */
+      if (!regstr || strcmp(regstr, "Reg") != 0)  /* Sanity check */
         continue;
 
       if (numprocs > 1) {
@@ -113,7 +110,7 @@ extern "C" {
 
       /* can't use fname because we used strtok on it and it only
        * contains a substring */
-      strcpy((*regFileNames)[nfiles], diritem->d_name);
+      snprintf((*regFileNames)[nfiles], 256, "%s%s", dirname, diritem->d_name);
       strcpy((*regNames)[nfiles], matname);
       nfiles++;
     }
@@ -127,14 +124,20 @@ extern "C" {
 
   int getBdyFileNames(const char *x3dfilename_in, int numprocs, int rank, char (**nodesetFileNames)[256], char (**nodesetNames)[256]) {
 
-    char x3dfilename[256];
-    strcpy(x3dfilename, x3dfilename_in);  /* hack to remove constness */
+    /* Split the file name into its directory (with the trailing slash)
+       and the part before the extension (and the rank) */
+
+    char dirname[256], basefilename[256];
+    const char *slash = strrchr(x3dfilename_in, '/');
+    int dirlen = slash ? slash + 1 - x3dfilename_in : 0;
+    memcpy(dirname, x3dfilename_in, dirlen);
+    dirname[dirlen] = '\0';
+    strcpy(basefilename, x3dfilename_in + dirlen);
+    char *ext = strstr(basefilename, ".x3d");
+    if (ext) *ext = '\0';
+    int baselen = strlen(basefilename);
 
-    char dirname[256];
-    strcpy(dirname, basename(x3dfilename));
-    if (strcmp(dirname,x3dfilename) == 0)
-      strcpy(dirname, ".");
-    DIR *dir_p = opendir(dirname);
+    DIR *dir_p = opendir(dirlen ? dirname : ".");
     int ncandidates = 0;
     if (!dir_p)
       return 0;
@@ -147,9 +150,7 @@ extern "C" {
     *nodesetFileNames = malloc(ncandidates*sizeof(char[256]));
     *nodesetNames = malloc(ncandidates*sizeof(char[256]));
 
-    char *basefilename = strtok(x3dfilename, ".");
-
-    dir_p = opendir(dirname);
+    dir_p = opendir(dirlen ? dirname : ".");
     int nfiles = 0;
     while ((diritem = readdir(dir_p))) {
       char fname[256];
@@ -159,15 +160,13 @@ extern "C" {
       if (!strstr(fname, ".Bdy"))
         continue;
 
-      char *token = strtok(fname, ".");
-
       /* Does the base file name match the base of the x3d file name */
-      if (strcmp(basefilename, token) != 0)
+      if (strncmp(basefilename, fname, baselen) != 0 || fname[baselen] != '.')
         continue;                   /* doesn't correspond to this x3d file */
 
-      char *matname = (char *) strtok(NULL, ".");
+      char *matname = (char *) strtok(fname + baselen, ".");
       char *bdystr  = (char *) strtok(NULL, ".");
-      if (strcmp(bdystr, "Bdy") != 0)  /* Sanity check */
+      if (!bdystr || strcmp(bdystr, "Bdy") != 0)  /* Sanity check */
         continue;
 
       if (numprocs > 1) {
@@ -187,7 +186,7 @@ extern "C" {
 
       /* can't use fname because we used strtok on it and it only
        * contains a substring */
-      strcpy((*nodesetFileNames)[nfiles], diritem->d_name);
+      snprintf((*nodesetFileNames)[nfiles], 256, "%s%s", dirname, diritem->d_name);
       strcpy((*nodesetNames)[nfiles], matname);
       nfiles++;
     }
@@ -792,6 +791,8 @@ extern "C" {
 
   }
 
+  fclose(fp);
+
   /* Some codes don't respect (and write out) appropriate matid
    * data. Instead they rely on .Reg (Material Region) files to
    * specify membership of cells in materials. This allows more than
@@ -850,7 +851,7 @@ extern "C" {
             sprintf(temp_str, "Could not find element ID %d from Reg file %s in mesh with %d elements", elemid, regfname, MESH_Num_Regions(mesh)); 
             MSTK_Report("MESH_ImportFromFLAGX3D", temp_str, MSTK_FATAL);
           }
-          MR_Set_GEntDim(mr, 2);
+          MR_Set_GEntDim(mr, 3);
           MR_Set_GEntID(mr, matid);
 	  MSet_Add(elset, mr);
           nelements++;
@@ -904,10 +905,15 @@ extern "C" {
     }
   }
 
-  if (ndim == 2)
+  free(mv);
+  if (ndim == 2) {
+    free(me);
     free(medir);
-  else if (ndim == 3)
+  }
+  else if (ndim == 3) {
+    free(mf);
     free(mfdir);
+  }
 
   free(matnames);
   free(mateos);
-- 
2.43.0


From 6c2401b1693961b4724bffed761a4c46bfe519bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 59/60] fix: model edges and vertices derived from a classified
 mesh were looked up wrongly or missed; crash when already classified

---
 src/hilev/MESH_BuildEdgeClassfn.c   | 38 ++++++++++++-----------------
 src/hilev/MESH_BuildVertexClassfn.c | 30 +++++++++--------------
 2 files changed, 28 insertions(+), 40 deletions(-)

diff --git a/src/hilev/MESH_BuildEdgeClassfn.c b/src/hilev/MESH_BuildEdgeClassfn.c
index 93fb511..d1bfc58 100644
--- a/src/hilev/MESH_BuildEdgeClassfn.c
+++ b/src/hilev/MESH_BuildEdgeClassfn.c
@@ -87,7 +87,7 @@ extern "C" {
 	geids[ngedges] = geid;
 
 	efaces = ME_Faces(edge);
-	nef = List_Num_Entries(efaces);
+	nef = efaces ? List_Num_Entries(efaces) : 0;
 
 	gefaceids[ngedges] = (int *) malloc((1+nef)*sizeof(int));
         ngef = 0;
@@ -102,7 +102,7 @@ extern "C" {
 
 	ngedges++;
 
-	List_Delete(efaces);
+	if (efaces) List_Delete(efaces);
       }
 
     }
@@ -158,6 +158,7 @@ extern "C" {
 	geids[ngedges] = max_gedge_id;
 	gefaceids[ngedges] = malloc(1*sizeof(int *));
 	gefaceids[ngedges][0] = 0;
+	ngedges++;
       }
 
       continue; /* nothing else to do */
@@ -203,8 +204,8 @@ extern "C" {
 	    if (gefaceids[i][0] != 2)
 	      continue;
 
-	    if ((loc_gfids[0] == gefaceids[i][0]) && 
-		(gefaceids[i][0] == gefaceids[i][1])) {
+	    if ((loc_gfids[0] == gefaceids[i][1]) && 
+		(gefaceids[i][1] == gefaceids[i][2])) {
 	      fnd = 1;
 	      break;
 	    }
@@ -296,24 +297,17 @@ extern "C" {
 	if (ngef != gefaceids[i][0]) 
 	  continue; /* number of connected model faces is different */
 	
-	/* see if all the model faces of the current edge can be found
-	   in the i'th model edge's faces */
-
-	fnd2 = 0;
-	for (j = 0; j < ngef; j++) {
-	  
-	  fnd2 = 0;
-	  for (k = 0; k < ngef; k++) {
-	    if (loc_gfids[j] == gefaceids[i][1+k]) {
-	      fnd2 = 1;
-	      break;
-	    }
-	  }
-
-	  /* Did not find loc_gfid[j] in the list gefaceids[i] */
-
-	  if (!fnd2)
-	    break;
+	/* see if every model face of the current edge occurs among the
+	   i'th model edge's faces as often as around this edge */
+
+	fnd2 = 1;
+	for (j = 0; j < ngef && fnd2; j++) {
+	  int count = 0;
+	  for (k = 0; k < ngef; k++)
+	    count += (loc_gfids[k] == loc_gfids[j]) - 
+	      (gefaceids[i][1+k] == loc_gfids[j]);
+	  if (count != 0)
+	    fnd2 = 0;
 	}
 
 	/* if a model face connected to this edge was not found in the
diff --git a/src/hilev/MESH_BuildVertexClassfn.c b/src/hilev/MESH_BuildVertexClassfn.c
index 4356acc..6003413 100644
--- a/src/hilev/MESH_BuildVertexClassfn.c
+++ b/src/hilev/MESH_BuildVertexClassfn.c
@@ -124,6 +124,7 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
       gvids[ngverts] = max_gvert_id;
       gvedgeids[ngverts] = malloc(1*sizeof(int *));
       gvedgeids[ngverts][0] = 0;
+      ngverts++;
 
       continue; /* nothing else to do */
     }
@@ -281,24 +282,17 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
 	if (ngve != gvedgeids[i][0]) 
 	  continue; /* number of connected model edges is different */
 	
-	/* see if all the model edges of the current vertex can be
-	   found in the i'th model vertex's edges */
-
-	fnd2 = 0;
-	for (j = 0; j < ngve; j++) {
-	  
-	  fnd2 = 0;
-	  for (k = 0; k < ngve; k++) {
-	    if (loc_geids[j] == gvedgeids[i][1+k]) {
-	      fnd2 = 1;
-	      break;
-	    }
-	  }
-
-	  /* Did not find loc_gfid[j] in the list gvedgeids[i] */
-
-	  if (!fnd2)
-	    break;
+	/* see if every model edge of the current vertex occurs among
+	   the i'th model vertex's edges as often as at this vertex */
+
+	fnd2 = 1;
+	for (j = 0; j < ngve && fnd2; j++) {
+	  int count = 0;
+	  for (k = 0; k < ngve; k++)
+	    count += (loc_geids[k] == loc_geids[j]) - 
+	      (gvedgeids[i][1+k] == loc_geids[j]);
+	  if (count != 0)
+	    fnd2 = 0;
 	}
 
 	/* if a model edge connected to this vertex was not found in
-- 
2.43.0


From 3e6ff412a7d48345f143f98fa41105e0aee5a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 60/60] fix: ExodusII files: option slot, empty meshes, long
 names, attribute selection, geometry and element sets, blocks of surface
 elements in 3D

---
 src/io/MESH_ExportToExodusII.c    | 161 +++++++++++++++++++++++-------
 src/io/MESH_ReadExodusII_Serial.c |   7 +-
 2 files changed, 130 insertions(+), 38 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index bcc4380..2cfde79 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -48,6 +48,7 @@ extern "C" {
                               int **node_set_ids_glob,
                               MSTK_Comm comm);
   void MESH_Get_Attribute_Info(Mesh_ptr mesh,
+                               const int natt, const char **attnames,
                                int *num_element_atts,
                                char ***element_att_names,
                                int *num_node_atts,
@@ -87,6 +88,42 @@ extern "C" {
   int ownedmk = 0;
   MAttrib_ptr ownedatt = NULL;
 
+  /* Real valued attribute of the given name on entities of a given
+     dimension - different kinds of entities can have attributes of the
+     same name */
+
+  static MAttrib_ptr MESH_Attrib_OnDim(Mesh_ptr mesh, const char *name, MType dim) {
+    char attname[256];
+    int idx = 0;
+    MAttrib_ptr att;
+
+    while ((att = MESH_Next_Attrib(mesh,&idx))) {
+      if (MAttrib_Get_Type(att) == INT || MAttrib_Get_Type(att) == POINTER) continue;
+      if (MAttrib_Get_EntDim(att) != dim && MAttrib_Get_EntDim(att) != MALLTYPE) continue;
+      MAttrib_Get_Name(att,attname);
+      if (strcmp(attname,name) == 0) return att;
+    }
+    return NULL;
+  }
+
+  /* The set to which entities can be added because of their
+     classification - not the set of the user which has the same ID */
+
+  static void MESH_Own_Set(Mesh_ptr mesh, MSet_ptr *mset, const char *prefix, int id) {
+    char setname[256];
+    int idx = 0;
+    MEntity_ptr ment;
+    MSet_ptr oldset = *mset;
+
+    MSet_Name(oldset,setname);
+    if (strncmp(setname,"TEMPORARY_",10) == 0) return;
+
+    sprintf(setname,"TEMPORARY_%s_%-d",prefix,id);
+    *mset = MSet_New(mesh,setname,MSet_EntDim(oldset));
+    while ((ment = MSet_Next_Entry(oldset,&idx)))
+      MSet_Add(*mset,ment);
+  }
+
   int MESH_ExportToExodusII(Mesh_ptr mesh, const char *filename, 
 			    const int natt, const char **attnames, 
 			    const int *opts, MSTK_Comm comm) {
@@ -193,7 +230,7 @@ extern "C" {
 
     verbose = opts ? opts[0] : 0;  // default is 0
     enable_geometry_sets = opts ? opts[1] : 0;  // default is 0
-    enforce_contiguous_ids = opts ? opts[1] : 1; // default is 1
+    enforce_contiguous_ids = opts ? opts[2] : 1; // default is 1
 
     if (verbose)
       fprintf(stdout,"\nMesh representation type is %s\n", 
@@ -212,6 +249,11 @@ extern "C" {
     int element_dim = -1, side_dim = -1;
     int num_element = 0, num_side = 0;
 
+    if (!nrall && !nfall) {
+      MSTK_Report(funcname,"Writing of wire meshes or point clouds not supported",MSTK_ERROR);
+      return 0;
+    }
+
     vidatt = MAttrib_New(mesh,"vidatt",INT,MVERTEX);
 
     if (nrall) {
@@ -326,7 +368,7 @@ extern "C" {
 		nvowned,neowned,nfowned,nrowned);
 
     }
-    else if (nfall) {
+    else {
       
       element_dim = 2; side_dim = 1; boundary_dim = 1;
 
@@ -418,11 +460,30 @@ extern "C" {
       fprintf(stdout,"\nThis is a 3D surface mesh with %d Vertices, %d Edges and %d Faces\n", nvowned,neowned,nfowned);
 
     }
-    else {
-      MSTK_Report(funcname,"Writing of wire meshes or point clouds not supported",MSTK_ERROR);
-      exit(-1);
+    if (!enforce_contiguous_ids) {
+      /* The IDs of the vertices can be used as they are only if they
+         are contiguous */
+
+      idx = 0;
+      while ((mv = MESH_Next_Vertex(mesh,&idx))) {
+        MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
+        if (vid > nvowned) {
+          enforce_contiguous_ids = 1;
+          break;
+        }
+      }
+
+      if (enforce_contiguous_ids) {
+        i = 0;
+        idx = 0;
+        while ((mv = MESH_Next_Vertex(mesh,&idx))) {
+          MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
+          if (vid)
+            MEnt_Set_AttVal(mv,vidatt,++i,0.0,NULL);
+        }
+      }
     }
-    
+
     /* decide if it is 2d planar mesh or 3D surface mesh */
 
     if (element_dim == 2) {
@@ -622,7 +683,8 @@ extern "C" {
     /* write global parameters */
     
     ex_init_params par;
-    strcpy(par.title,filename);
+    strncpy(par.title,filename,MAX_LINE_LENGTH);
+    par.title[MAX_LINE_LENGTH] = '\0';
     par.num_nodes = nvowned;
 
     if (element_dim == 3 || boundary_dim == 2)
@@ -1014,20 +1076,22 @@ extern "C" {
    
     for (i = 0; i < num_node_set_glob; i++) {
       int nnodes = MSet_Num_Entries(node_sets_glob[i]);
-#ifdef EXODUS_6_DEPRECATED
-      ex_put_node_set_param(exoid, node_set_ids_glob[i], nnodes, 0);
-#else
-      ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], nnodes, 0);
-#endif
 
       int *node_list = (int *) malloc(nnodes*sizeof(int));
 
       idx = 0; j = 0;
       while ((mv = MSet_Next_Entry(node_sets_glob[i],&idx))) {
         MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
-	node_list[j++] = vid;
+        if (vid)
+          node_list[j++] = vid;
       }
 
+#ifdef EXODUS_6_DEPRECATED
+      ex_put_node_set_param(exoid, node_set_ids_glob[i], j, 0);
+#else
+      ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], j, 0);
+#endif
+
 #ifdef EXODUS_6_DEPRECATED
       ex_put_node_set(exoid, node_set_ids_glob[i], node_list);
 #else
@@ -1278,7 +1342,7 @@ extern "C" {
 
     /* COLLECT ATTRIBUTE/FIELD INFO */
 
-    MESH_Get_Attribute_Info(mesh, &num_element_atts_glob, 
+    MESH_Get_Attribute_Info(mesh, natt, attnames, &num_element_atts_glob, 
                             &element_att_names_glob,
                             &num_node_atts_glob, &node_att_names_glob,
                             &num_sideset_atts_glob, &sideset_att_names_glob,
@@ -1288,19 +1352,22 @@ extern "C" {
     char veckey[16] = "_veccomp";
     int keylen = strlen(veckey);
     
-    if (natt >= 0 && num_node_atts_glob) {
-      /* TODO: if natt > 0, we have to look in attnames and filter out
-       * unneeded ones */
+    if (num_node_atts_glob) {
 
       /* If there are some vector/tensor attributes, each of their
          components has to be written out separately by suffixing the
          attribute name with a keyword and component index */
 
-      int num_node_atts_out = 0;      
-      char **node_att_names_out =  malloc(num_node_atts_glob*6*sizeof(char *));
+      int num_node_atts_out = 0;
+      for (j = 0; j < num_node_atts_glob; j++) {
+        int ncomp = MAttrib_Get_NumComps(MESH_Attrib_OnDim(mesh,node_att_names_glob[j],MVERTEX));
+        num_node_atts_out += ncomp > 1 ? ncomp : 1;
+      }
+      char **node_att_names_out = malloc(num_node_atts_out*sizeof(char *));
+      num_node_atts_out = 0;
 
       for (j = 0; j < num_node_atts_glob; j++) {
-        MAttrib_ptr att = MESH_AttribByName(mesh,node_att_names_glob[j]);
+        MAttrib_ptr att = MESH_Attrib_OnDim(mesh,node_att_names_glob[j],MVERTEX);
         if (MAttrib_Get_Type(att) == VECTOR || MAttrib_Get_Type(att) == TENSOR) {
           int ncomp = MAttrib_Get_NumComps(att);
           for (k = 0; k < ncomp; k++) {
@@ -1342,7 +1409,7 @@ extern "C" {
       double *node_vars = (double *) malloc(nvowned*sizeof(double));
       int attid = 1;
       for (j = 0; j < num_node_atts_glob; ++j) {
-        MAttrib_ptr att = MESH_AttribByName(mesh,node_att_names_glob[j]);
+        MAttrib_ptr att = MESH_Attrib_OnDim(mesh,node_att_names_glob[j],MVERTEX);
         
         if (MAttrib_Get_Type(att) == VECTOR || MAttrib_Get_Type(att) == TENSOR) {
           /* Write out each component separately */
@@ -1364,7 +1431,8 @@ extern "C" {
 
               MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
               MEnt_Get_AttVal(mv,att,&ival,&rval,&pval);
-              node_vars[vid-1] = ((double *) pval)[n];
+              if (vid)
+                node_vars[vid-1] = pval ? ((double *) pval)[n] : 0.0;
             }
     
 #ifdef EXODUS_6_DEPRECATED         
@@ -1395,7 +1463,8 @@ extern "C" {
 
             MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
             MEnt_Get_AttVal(mv,att,&ival,&rval,&pval);
-            node_vars[vid-1] = rval;
+            if (vid)
+              node_vars[vid-1] = rval;
           }
           
 #ifdef EXODUS_6_DEPRECATED
@@ -1419,20 +1488,22 @@ extern "C" {
 
 
 
-    if (natt >= 0 && num_element_atts_glob) {
-      /* TODO: if natt > 0, we have to look in attnames and filter out
-       * unneeded ones */
+    if (num_element_atts_glob) {
 
       /* If there are some vector/tensor attributes, each of their
          components has to be written out separately by suffixing the
          attribute name with a keyword and component index */
 
-      int num_element_atts_out = 0;      
-      char **element_att_names_out = 
-          malloc(num_element_atts_glob*6*sizeof(char *));
+      int num_element_atts_out = 0;
+      for (j = 0; j < num_element_atts_glob; j++) {
+        int ncomp = MAttrib_Get_NumComps(MESH_Attrib_OnDim(mesh,element_att_names_glob[j],(MType) element_dim));
+        num_element_atts_out += ncomp > 1 ? ncomp : 1;
+      }
+      char **element_att_names_out = malloc(num_element_atts_out*sizeof(char *));
+      num_element_atts_out = 0;
 
       for (j = 0; j < num_element_atts_glob; j++) {
-        MAttrib_ptr att = MESH_AttribByName(mesh,element_att_names_glob[j]);
+        MAttrib_ptr att = MESH_Attrib_OnDim(mesh,element_att_names_glob[j],(MType) element_dim);
         if (MAttrib_Get_Type(att) == VECTOR || MAttrib_Get_Type(att) == TENSOR) {
           int ncomp = MAttrib_Get_NumComps(att);
           for (k = 0; k < ncomp; k++) {
@@ -1495,7 +1566,7 @@ extern "C" {
 
       int attid = 1;
       for (j = 0; j < num_element_atts_glob; ++j) {
-        MAttrib_ptr att = MESH_AttribByName(mesh,element_att_names_glob[j]);
+        MAttrib_ptr att = MESH_Attrib_OnDim(mesh,element_att_names_glob[j],(MType) element_dim);
 
         if (MAttrib_Get_Type(att) == VECTOR || MAttrib_Get_Type(att) == TENSOR) {
           int ncomp = MAttrib_Get_NumComps(att);
@@ -1509,7 +1580,7 @@ extern "C" {
               idx = 0; k = 0;
               while ((ment = MSet_Next_Entry(element_blocks_glob[i],&idx))) {
                 MEnt_Get_AttVal(ment,att,&ival,&rval,&pval);
-                elem_vars[k++] = ((double *) pval)[n];
+                elem_vars[k++] = pval ? ((double *) pval)[n] : 0.0;
               }
               
 #ifdef EXODUS_6_DEPRECATED
@@ -1689,6 +1760,8 @@ extern "C" {
     while ((mv = MESH_Next_Vertex(mesh,&idx)))
       MEnt_Rem_AttVal(mv,vidatt);
     MAttrib_Delete(vidatt);
+    MAttrib_Delete(block_type_att);
+
     if (fidatt) {
       idx = 0;
       while ((mf = MESH_Next_Face(mesh,&idx)))
@@ -2210,7 +2283,9 @@ extern "C" {
           while (!found && i < nsideset) {
             if (side_set_ids[i] == sid) {
               found = 1;
-              MSet_Add(side_sets[i],mf);
+              MESH_Own_Set(mesh,&(side_sets[i]),"sideset",sid);
+              if (!MSet_Contains(side_sets[i],mf))
+                MSet_Add(side_sets[i],mf);
               break;
             }
             i++;
@@ -2274,6 +2349,7 @@ extern "C" {
         /* create sidesets from sets of edges classified on the same
            geometric model edge */
 
+        idx = 0;
         while ((me = MESH_Next_Edge(mesh,&idx))) {
           if (ME_GEntDim(me) != 1) continue;
           
@@ -2295,7 +2371,9 @@ extern "C" {
           while (!found && i < nsideset) {
             if (side_set_ids[i] == sid) {
               found = 1;
-              MSet_Add(side_sets[i],me);
+              MESH_Own_Set(mesh,&(side_sets[i]),"sideset",sid);
+              if (!MSet_Contains(side_sets[i],me))
+                MSet_Add(side_sets[i],me);
               break;
             }
             i++;
@@ -2536,7 +2614,9 @@ extern "C" {
         while (!found && i < nnodeset) {
           if (node_set_ids[i] == nid) {
             found = 1;
-            MSet_Add(node_sets[i],mv);
+            MESH_Own_Set(mesh,&(node_sets[i]),"nodeset",nid);
+            if (!MSet_Contains(node_sets[i],mv))
+              MSet_Add(node_sets[i],mv);
             break;
           }
           i++;
@@ -2895,6 +2975,7 @@ extern "C" {
   /* Discover the attributes on elements, nodes and sidesets */
 
   void MESH_Get_Attribute_Info(Mesh_ptr mesh, 
+                               const int natt, const char **attnames,
                                int *num_element_atts_glob, 
                                char ***element_att_names_glob, 
                                int *num_node_atts_glob, 
@@ -2944,6 +3025,16 @@ extern "C" {
       // Can only export real valued (scalar or vector) attributes
 
       if (MAttrib_Get_Type(att) == INT || MAttrib_Get_Type(att) == POINTER) continue;
+
+      // All of them (natt = 0), none (natt < 0) or only the ones asked for
+      if (natt) {
+        char attname[256];
+        int wanted = 0;
+        MAttrib_Get_Name(att, attname);
+        for (i = 0; i < natt && !wanted; i++)
+          wanted = (strcmp(attname, attnames[i]) == 0);
+        if (!wanted) continue;
+      }
       
       MAttrib_Get_Name(att, &(att_names_loc[natt_loc*MAXLEN]));
       att_dim_loc[natt_loc] = MAttrib_Get_EntDim(att);
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 8faa650..1da0e65 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1100,7 +1100,7 @@ extern "C" {
             MF_Set_Vertices(mf,nnpe[j],fverts);
 
             MF_Set_GEntID(mf, elem_blk_ids[i]);
-            MF_Set_GEntID(mf, 2);
+            MF_Set_GEntDim(mf, 2);
 
             if (mesh_type == 1 || mesh_type == 3) {
               MEnt_Set_AttVal(mf,elblockatt,elem_blk_ids[i],0.0,NULL);
@@ -1150,7 +1150,7 @@ extern "C" {
             MF_Set_Vertices(mf,nelnodes,fverts);
 
             MF_Set_GEntID(mf, elem_blk_ids[i]);
-            MF_Set_GEntID(mf, 2);
+            MF_Set_GEntDim(mf, 2);
 
             if (mesh_type == 1 || mesh_type == 3) {
               MEnt_Set_AttVal(mf,elblockatt,elem_blk_ids[i],0.0,NULL);
@@ -1785,7 +1785,8 @@ extern "C" {
           char elemsetname[256];
           sprintf(elemsetname,"elemset_%-d",elemset_ids[i]);
 	
-          MSet_ptr elemset = MSet_New(mesh,elemsetname,MREGION);
+          MSet_ptr elemset = MSet_New(mesh,elemsetname,
+                                      mesh_type == 1 ? MFACE : MREGION);
       
           status = ex_get_set_param(exoid, EX_ELEM_SET, elemset_ids[i],
                                     &num_elems_in_set, &num_df_in_set);
-- 
2.43.0

