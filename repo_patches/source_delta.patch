From e86b597507aad8ab0f8db610ad502a5095c0c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:40 +0000
Subject: [PATCH 001/116] fix: pd_R3_triangle_flip asserts (or flips nonsense)
 on a 3-edge face that revisits a crossing; return NULL there

---
 src/pd_crossingmoves.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 6b6f72f..69949d2 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -1901,17 +1901,26 @@ pd_code_t *pd_R2_bigon_addition(pd_code_t *pd, pd_idx_t f,
 
 pd_code_t *pd_R3_triangle_flip(pd_code_t *pd, pd_idx_t f)
 // Do an R3 move. Right now we're only going to worry about shadows...
+// Returns NULL if face f is not a triangle with three different crossings.
 {
-    pd_code_t *ret = pd_copy(pd);
+    pd_code_t *ret;
     pd_idx_t ea[3], eb[3];
     pd_idx_t *e = pd->face[f].edge;
     int i;
 
     if (pd->face[f].nedges != 3) {
-        // Should also check for 3 vertices... hmm
         return NULL;
     }
 
+    for (i = 0; i < 3; i++) {
+        // A loop edge on the face means that the face revisits a crossing.
+        if (pd->edge[e[i]].head == pd->edge[e[i]].tail) {
+            return NULL;
+        }
+    }
+
+    ret = pd_copy(pd);
+
     for (i = 0; i < 3; i++) {
         ea[i] = pd_previous_edge(pd, e[i]);
         eb[i] = pd_next_edge(pd, e[i]);
-- 
2.43.0


From bbb7541c16dd7a4796bbe29a9c70c6f32e8881ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:40 +0000
Subject: [PATCH 002/116] fix: pd_R1_loopdeletion of a 1-crossing diagram loses
 the component tag

---
 src/pd_crossingmoves.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 69949d2..488744d 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -464,7 +464,9 @@ pd_code_t *pd_R1_loopdeletion(pd_code_t *pd,pd_idx_t cr)
 
     if (pd->ncomps == 1 && pd->ncross == 1 && pd->nedges == 2 && pd->nfaces == 3) {
 
-      return pd_build_unknot(0);
+      pd_code_t *unknot = pd_build_unknot(0);
+      unknot->comp[0].tag = pd->comp[0].tag; /* The component keeps its identity. */
+      return unknot;
 
     } else {
 
-- 
2.43.0


From acc02e7f33d6e5c1adfa436c3c84d4ed45fb6357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:42 +0000
Subject: [PATCH 003/116] fix: copying the 0-crossing unknot loses its
 component tag, uid and hash

---
 src/pdcode.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 354efaf..1dd6c22 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2723,7 +2723,11 @@ pd_code_t *pd_copy_newsize(pd_code_t *pd, pd_idx_t MAXVERTS)
 {
   if (pd->ncross == 0) {
 
-    return pd_build_unknot(0);
+    pd_code_t *unknot = pd_build_unknot(0);
+    unknot->uid = pd->uid;
+    unknot->comp[0].tag = pd->comp[0].tag;
+    memcpy(unknot->hash,pd->hash,PD_HASHSIZE);
+    return unknot;
 
   }
 
-- 
2.43.0


From 58d25f860f7836b56d946f2ddb8ed08c1cd5d935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:57 +0000
Subject: [PATCH 004/116] fix: pd_next_edge and pd_previous_edge index a
 nonexistent crossing on the 0-crossing unknot

---
 src/pdcode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 1dd6c22..2bf99a4 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -4995,6 +4995,7 @@ pd_idx_t pd_previous_edge(pd_code_t *pd, pd_idx_t edge)
 
 {
   pd_check_edge(SRCLOC,pd,edge);
+  if (pd->ncross == 0) { return edge; } /* The 0-crossing unknot has a single edge. */
   pd_idx_t candidate_edge = pd->cross[pd->edge[edge].tail].edge[(pd->edge[edge].tailpos+2)%4];
   assert(pd->edge[candidate_edge].head == pd->edge[edge].tail);
   return candidate_edge;
@@ -5006,6 +5007,7 @@ pd_idx_t pd_next_edge(pd_code_t *pd,pd_idx_t edge)
 
 {
   pd_check_edge(SRCLOC,pd,edge);
+  if (pd->ncross == 0) { return edge; } /* The 0-crossing unknot has a single edge. */
   pd_idx_t candidate_edge = pd->cross[pd->edge[edge].head].edge[(pd->edge[edge].headpos+2)%4];
   assert(pd->edge[candidate_edge].tail == pd->edge[edge].head);
   return candidate_edge;
-- 
2.43.0


From 03800a43ddf7b07aa465b224189c1e14fa0251f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:57 +0000
Subject: [PATCH 005/116] fix: pd_is_alternating crashes on the 0-crossing
 unknot

---
 src/pdcode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 2bf99a4..225f047 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2628,6 +2628,8 @@ bool pd_ok(pd_code_t *pd) {
 bool pd_is_alternating(pd_code_t *pd)
 /* Checks to see if pd is an alternating link. Returns an error if some crossings are not set. */
 {
+  if (pd->ncross == 0) { return true; } /* Nothing to alternate in the 0-crossing unknot */
+
   pd_idx_t cr;
 
   for(cr=0;cr<pd->ncross;cr++) {
-- 
2.43.0


From 9792b6322bcf81ca8e90fbff3dafbbde7ca70e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:57 +0000
Subject: [PATCH 006/116] fix: reorienting or renumbering the 0-crossing unknot
 indexes a nonexistent crossing

---
 src/pd_operations.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pd_operations.c b/src/pd_operations.c
index 4f2d270..13e35c0 100644
--- a/src/pd_operations.c
+++ b/src/pd_operations.c
@@ -46,7 +46,9 @@ void pd_reorient_component(pd_code_t *pd, pd_idx_t cmp,pd_or_t orient)
   pd_check_notnull(SRCLOC,"pd",pd);
   pd_check_cmp(SRCLOC,pd,cmp);
 
-  if (orient == PD_NEG_ORIENTATION) {
+  /* The 0-crossing unknot has a single, unattached edge: nothing to change. */
+
+  if (orient == PD_NEG_ORIENTATION && pd->ncross != 0) {
 
     /* Several things need to happen in a proper component reversal:
 
@@ -151,7 +153,7 @@ void pd_renumber_component(pd_code_t *pd, pd_idx_t cmp,pd_idx_t ofs)
   pd_check_notnull(SRCLOC,"pd",pd);
   pd_check_cmp(SRCLOC,pd,cmp);
 
-  if (ofs != 0) {
+  if (ofs != 0 && pd->ncross != 0) {
 
     /* Several things need to happen in a proper component renumbering:
 
-- 
2.43.0


From d4bb562fae7bd2dd6940fccd20a74555830866ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:16 +0000
Subject: [PATCH 007/116] fix: pd_renumber_component subtracts the offset
 instead of adding it as documented

---
 src/pd_operations.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pd_operations.c b/src/pd_operations.c
index 13e35c0..2f3ebbd 100644
--- a/src/pd_operations.c
+++ b/src/pd_operations.c
@@ -193,9 +193,10 @@ void pd_renumber_component(pd_code_t *pd, pd_idx_t cmp,pd_idx_t ofs)
 
     for(e=0;e<cmp_edges;e++) { 
 
+      /* Remember that map[new edge] is the OLD edge which goes there. */
       new_e = (e + ofs) % cmp_edges;
-      emap->orient[pd->comp[cmp].edge[e]] = PD_POS_ORIENTATION;
-      emap->perm->map[pd->comp[cmp].edge[e]] = pd->comp[cmp].edge[new_e];
+      emap->orient[pd->comp[cmp].edge[new_e]] = PD_POS_ORIENTATION;
+      emap->perm->map[pd->comp[cmp].edge[new_e]] = pd->comp[cmp].edge[e];
 
     }
     
-- 
2.43.0


From f7af3275c40eb1ae96cd387a2cef1ffd1841d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:06 +0000
Subject: [PATCH 008/116] fix: pd_connect_sum crashes when an operand is the
 0-crossing unknot

---
 src/pd_crossingmoves.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 488744d..16bc1e5 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -2309,6 +2309,12 @@ pd_code_t *pd_connect_sum(pd_code_t *pdA, pd_idx_t edgeA,
   pd_check_edge(SRCLOC,pdA,edgeA);
   pd_check_edge(SRCLOC,pdB,edgeB);
 
+  /* The 0-crossing unknot is the identity for connect sum. (Its
+     edge doesn't meet any crossing, so it can't be spliced in below.) */
+
+  if (pdB->ncross == 0) { return pd_copy(pdA); }
+  if (pdA->ncross == 0) { return pd_copy(pdB); }
+
   /* The algorithm here is straightforward; allocate space,
      copy crossings and edges, then reconnect edges. */
 
-- 
2.43.0


From f9392bbffc60740b1728d719ed876788282e6f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:13 +0000
Subject: [PATCH 009/116] fix: pd_read overflows its hash buffer by one on a
 hash of PD_HASHSIZE characters

---
 src/pdcode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 225f047..f9d5184 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3155,7 +3155,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
      want the sscanf pattern to reflect PD_HASHSIZE (which might change) */
 
   char hash_template[1024];
-  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE);
+  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE-1);
 
   int sscanf_result = sscanf(pd_line,hash_template,hash,&input_temp);
 
@@ -3178,7 +3178,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	       "If you don't know the hash, it should be omitted\n"
 	       "and this line should read\n"
 	       "\n"
-	       "pd\n",NULL,pd_line,bogus_hash,PD_HASHSIZE);
+	       "pd\n",NULL,pd_line,bogus_hash,PD_HASHSIZE-1);
       pd_err_set(err, PD_BAD_FORMAT);
       return NULL;
 
-- 
2.43.0


From 266640cd53cb24e182eaaec8db2fd555e69ec713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:13 +0000
Subject: [PATCH 010/116] fix: pd_read of a 0-crossing diagram drops its uid
 and hash, and exits the program on truncated input

---
 src/pdcode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index f9d5184..93ea0ed 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3289,7 +3289,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	pd_error(SRCLOC,
 		 "Reading 0 crossing pd code, we found eof before a component tag. ",NULL);
 	pd_err_set(err, PD_BAD_FORMAT);
-	exit(1);
+	return NULL;
 
       }
     }
@@ -3298,6 +3298,8 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     pd_code_t *outcode;
     outcode = pd_build_unknot(0);
     outcode->comp[0].tag = tag;
+    outcode->uid = uid;
+    if (strstr(hash,"unset") == NULL) { strncpy(outcode->hash,hash,PD_HASHSIZE); }
 
     /* Now we continue to scan until we see the letter p (a new pd-code) or feof. */
 
-- 
2.43.0


From e0c834b7983a9db51d7f29b718fd371ce6c29af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:08 +0000
Subject: [PATCH 011/116] fix: pd_read_KnotTheory misreads (or aborts on) most
 diagrams with a two-edge component

---
 src/pdcode.c | 401 ++++-----------------------------------------------
 1 file changed, 27 insertions(+), 374 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 93ea0ed..4ab26c9 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3849,402 +3849,55 @@ ones we don't need.
   pd->nedges = 2*crbuf_used;
   pd->nfaces = crbuf_used + 2;
 
-  /* We now search for two-edge components in the list. Unfortunately,
-     none of the existing "regenerate" codes are going to do the trick here,
-     because they all resort the crossings, losing the information we'll
-     need to correct our past errors (if any).
-  */
-
-  pd_idx_t crA, crB;
-
-  for(crA=0;crA<pd->ncross-1;crA++) {
-
-    for(crB=crA+1;crB<pd->ncross;crB++) {
-
-
-      /*       +------<--e2-----+
-	       |                |
-	       |0               |2
-	   1   |    3        3  |   1
-	+-------------->---------------+
-	 crA   |                |   crB
-	       |2               |0
-	       |                |
-	       +------->--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-
-      /*       +------->-e2-----+
-	       |                |
-	       |2               |0
-	   3   |    1        1  |   3
-	+-------------->---------------+
-	 crA   |                |   crB
-	       |0               |2
-	       |                |
-	       +-------<-e1-----+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[1]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------->-e2-----+
-	       |                |
-	       |3               |3
-	   0   |    2        0  |   2
-	+------|------->--------|------+
-	 crA   |                |   crB
-	       |1               |1
-	       |                |
-	       +-------<--e1----+
-
-	   taken as default, instead of
-
-	       +----------------+
-	       |                |
-	       |3               |3
-	   0   |    2        0  |   2
-	+------|------->--------|------+
-	 crA   |                |   crB
-	       |1               |1
-	       |                |
-	       +------->--------+
+  /* We now correct the two-edge components in the list, for which the
+     edge numbers at an overcrossing don't determine the direction of
+     the strand. We know that crossing cr has a two-edge component on
+     top if the same two edges meet on another strand.
 
-	   which has the same pd code.
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +-------->-e2----+
-	       |                |
-	       |1               |1
-	   2   |    0        2  |   0
-	+------|-------<--------|------+
-	 crA   |                |   crB
-	       |3               |3
-	       |                |
-	       +-------<-e1-----+
-
-	   taken as default, instead of
-
-	       +----------------+
-	       |                |
-	       |1               |1
-	   2   |    0        2  |   0
-	+------|-------<--------|------+
-	 crA   |                |   crB
-	       |3               |3
-	       |                |
-	       +------->--------+
-
-	   which has the same pd code.
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[0]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +-------<---e2---+
-	       |                |
-	       |3               |2
-	   0   |    2        3  |   1
-	+------|------->---------------+
-	 crA   |                |   crB
-	       |1               |0
-	       |                |
-	       +------->---e1---+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
+     If this other strand is an understrand, it fixes the direction
+     of the component. If not, the component lies over the rest of the
+     link, and we let the lower numbered edge run from the lower numbered
+     crossing to the higher numbered one. */
 
-      /*       +------<---e2----+
-	       |                |
-	       |1               |2
-	   2   |    0        3  |   1
-	+------|-------<---------------+
-	 crA   |                |   crB
-	       |3               |0
-	       |                |
-	       +------->--e1----+
+  pd_idx_t ocr;
 
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[0]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------->---e2---+
-	       |                |
-	       |1               |0
-	   2   |    0        1  |   3
-	+------|-------<---------------+
-	 crA   |                |   crB
-	       |3               |2
-	       |                |
-	       +-------<---e1---+
-
-      */
-
-      if (pd->cross[crB].edge[0] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[0]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------>---e2----+
-	       |                |
-	       |3               |0
-	   0   |    2        1  |   3
-	+------|------->---------------+
-	 crA   |                |   crB
-	       |1               |2
-	       |                |
-	       +-------<--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[0] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-
-      /*       +------<-e2------+
-	       |                |
-	       |0               |3
-	   1   |    3        0  |   2
-	+-------------->--------|------+
-	 crA   |                |   crB
-	       |2               |1
-	       |                |
-	       +------->-e1-----+
-
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +-------<--e2----+
-	       |                |
-	       |0               |1
-	   1   |    3        2  |   0
-	+--------------<--------|------+
-	 crA   |                |   crB
-	       |2               |3
-	       |                |
-	       +------->--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[1] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-
-      }
+  for(cr=0;cr<pd->ncross;cr++) {
 
-      /*       +------->--e2----+
-	       |                |
-	       |0               |1
-	   1   |    3        2  |   0
-	+--------------<--------|------+
-	 crA   |                |   crB
-	       |2               |3
-	       |                |
-	       +-------<--e1----+
+    pd_idx_t a = pd->cross[cr].edge[1], b = pd->cross[cr].edge[3];
+    pd_idx_t out = PD_UNSET_IDX; /* The edge which leaves cr on the overstrand */
 
-      */
+    for(ocr=0;ocr<pd->ncross && out == PD_UNSET_IDX;ocr++) {
 
-      if (pd->cross[crB].edge[1] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[3]) {
+      pd_idx_t *oe = pd->cross[ocr].edge;
 
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+      if ((oe[0] == a && oe[2] == b) || (oe[0] == b && oe[2] == a)) {
 
-	pd_idx_t e1, e2;
+	out = oe[0];
 
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
+	pd->edge[oe[0]].head = ocr; pd->edge[oe[0]].headpos = 0;
+	pd->edge[oe[2]].tail = ocr; pd->edge[oe[2]].tailpos = 2;
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+      } else if (ocr != cr &&
+		 ((oe[1] == a && oe[3] == b) || (oe[1] == b && oe[3] == a))) {
 
+	out = ((a < b) == (cr < ocr)) ? a : b;
 
       }
 
-      /*       +------->--e2----+
-	       |                |
-	       |0               |3
-	   1   |    3        0  |   2
-	+-------------->--------|------+
-	 crA   |                |   crB
-	       |2               |1
-	       |                |
-	       +-------<--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
+    }
 
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
+    if (out != PD_UNSET_IDX) {
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+      pd_idx_t in = (out == a) ? b : a;
 
-      }
+      pd->edge[out].tail = cr; pd->edge[out].tailpos = (out == a) ? 1 : 3;
+      pd->edge[in].head = cr;  pd->edge[in].headpos  = (out == a) ? 3 : 1;
+      pd->cross[cr].sign = (out == a) ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION;
 
     }
 
   }
 
-
   /* We can now detect everything else by regenerating... */
 
   pd_regenerate(pd);
-- 
2.43.0


From 8340dda85ce707362616a233a9ec0f73313f1c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:11 +0000
Subject: [PATCH 012/116] fix: pd_faces_ok divides by zero on an empty face and
 accepts repeated faces

---
 src/pdcode.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 4ab26c9..5270a54 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2533,6 +2533,12 @@ bool pd_faces_ok(pd_code_t *pd)
 
     pd_face_t *f = &(pd->face[face]);
 
+    if (f->nedges == 0) {
+
+      return pd_error(SRCLOC,"face %d has no edges in pd %PD",pd,face);
+
+    }
+
     for(edge=0,nxt_edge= 1 % f->nedges;
 	edge<f->nedges;
 	edge++,nxt_edge = (edge+1) % f->nedges) {
@@ -2575,6 +2581,35 @@ bool pd_faces_ok(pd_code_t *pd)
 
   }
 
+  /* Check that each edge occurs at most once on some face in each orientation. */
+
+  int *side_seen = calloc(2*pd->nedges,sizeof(int));
+  assert(side_seen != NULL);
+
+  for(face=0;face<pd->nfaces;face++) {
+
+    for(edge=0;edge<pd->face[face].nedges;edge++) {
+
+      side_seen[2*pd->face[face].edge[edge] +
+		(pd->face[face].orient[edge] == PD_POS_ORIENTATION ? 1 : 0)]++;
+
+    }
+
+  }
+
+  for(edge=0;edge<2*pd->nedges;edge++) {
+
+    if (side_seen[edge] > 1) {
+
+      free(side_seen);
+      return pd_error(SRCLOC,"%EDGE is on more than two faces in pd %PD",pd,edge/2);
+
+    }
+
+  }
+
+  free(side_seen);
+
   /* Check that each face is rotated into canonical order */
 
   for(face=0;face<pd->nfaces;face++) {
-- 
2.43.0


From 4221d5d1b690164761ec4c8b77e3b26b8ff48012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:11 +0000
Subject: [PATCH 013/116] fix: pd_comps_ok never checks the smallest component
 tag

---
 src/pdcode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 5270a54..6f45b6a 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2449,6 +2449,10 @@ bool pd_comps_ok(pd_code_t *pd)
 
     }
 
+  }
+
+  for(i=0;i<pd->ncomps;i++) {
+
     if (tagset[i] < 'A') {
 
       pd_idx_t compA;
-- 
2.43.0


From 1ea16bd443f2c33b5512b5561fe30d28863ff860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:11 +0000
Subject: [PATCH 014/116] fix: pd_read indexes out of bounds or aborts on
 corrupt diagram text instead of returning NULL

---
 src/pdcode.c | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 6f45b6a..4afb767 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3291,6 +3291,16 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   }
 
+  /* The number of edges has to be a pd_idx_t, too. */
+
+  if (input_temp > (PD_UNSET_IDX-2)/2) {
+
+    pd_error(SRCLOC,"number of crossings %lu is too large\n",NULL,input_temp);
+    pd_err_set(err, PD_BAD_FORMAT);
+    return NULL;
+
+  }
+
   /* We now know the number of crossings to allocate space for,
      and we can call pd_new. We make sure that we have space for
      at least two more crossings than we see now (to prevent zero
@@ -3453,6 +3463,17 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     }
 
+    if (input_temp >= pd->ncross || input_temp2 >= 4 ||
+	input_temp3 >= pd->ncross || input_temp4 >= 4) {
+
+      pd_error(SRCLOC,
+	       "edge %d refers to a crossing or position which doesn't exist\n",pd,edge);
+      pd_err_set(err, PD_BAD_FORMAT);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
+
     pd->edge[edge].tail = (pd_idx_t)(input_temp);
     pd->edge[edge].tailpos = (pd_pos_t)(input_temp2);
 
@@ -3470,6 +3491,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	     "nc <ncomps>\n"
 	     "where <ncomps> is a positive integer\n"
 	     "but this one doesn't",pd);
+    pd_err_set(err, PD_BAD_FORMAT);
     pd_code_free(&pd); return NULL;
 
   }
@@ -3508,12 +3530,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     pd->comp[comp].nedges = (pd_idx_t)(input_temp);
 
-    /* We haven't allocated space in the component. */
-
-    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
-    assert(pd->comp[comp].edge != NULL);
-
-    if (pd->comp[comp].nedges > pd->MAXEDGES) {
+    if (pd->comp[comp].nedges == 0 || pd->comp[comp].nedges > pd->MAXEDGES) {
 
       pd_error(SRCLOC,
                "Reading component which appears to be valid but has %d edges. "
@@ -3525,6 +3542,11 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     }
 
+    /* We haven't allocated space in the component. */
+
+    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
+    assert(pd->comp[comp].edge != NULL);
+
     for(edge=0;edge<pd->comp[comp].nedges;edge++) {
 
       if(fscanf(infile," %lu ",&input_temp) != 1) {
@@ -3674,7 +3696,14 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   pd_regenerate_crossings(pd); /* If the crossings were not in canonical order, fix it. */
 
-  pd_err_check(pd_ok(pd), err, PD_NOT_OK, pd);
+  if (!pd_ok(pd)) {
+
+    pd_err_set(err, PD_NOT_OK);
+    pd_code_free(&pd);
+    return NULL;
+
+  }
+
   if (strstr(pd->hash,"unset") != NULL) { pd_regenerate_hash(pd); }
 
   return pd;
-- 
2.43.0


From d4d7c2a0bbc2e90673f791de239577b366f694c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:11 +0000
Subject: [PATCH 015/116] fix: pd_read_KnotTheory writes out of bounds or exits
 on corrupt text instead of returning NULL

---
 src/pdcode.c | 83 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 78 insertions(+), 5 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 4afb767..d4946f9 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3790,11 +3790,44 @@ ones we don't need.
      to extract the information needed to allocate and fill a pd_code_t from this buffer,
      then free it. The first task is to allocate space for the code. */
 
+  pd_idx_t cr;
+
+  /* Every edge 1..2*crossings has to occur exactly twice, and the edge
+     in position 0 or 2 at one crossing can't be in the same position at
+     another (as this is where the edge ends or starts). */
+
+  bool edges_good = true;
+  int *nseen = calloc(2*crbuf_used,sizeof(int)), *nin = calloc(2*crbuf_used,sizeof(int)),
+    *nout = calloc(2*crbuf_used,sizeof(int));
+  assert(nseen != NULL && nin != NULL && nout != NULL);
+
+  for(cr=0;cr<crbuf_used && edges_good;cr++) {
+
+    pd_idx_t j;
+    for(j=0;j<4 && edges_good;j++) {
+
+      pd_idx_t e = crbuf[cr].edge[j]-1;
+
+      edges_good = (e < 2*crbuf_used) && (++nseen[e] <= 2) &&
+	(j != 0 || ++nin[e] <= 1) && (j != 2 || ++nout[e] <= 1);
+
+    }
+
+  }
+
+  free(nseen); free(nin); free(nout);
+
+  if (!edges_good) {
+
+    printf("pd_read_KnotTheory: Edges of the PD code aren't numbered consecutively from 1. Suspect data is corrupt.\n");
+    free(crbuf);
+    return NULL;
+
+  }
+
   pd_code_t *pd = pd_code_new(crbuf_used+2);
   assert(pd != NULL);
 
-  pd_idx_t cr;
-
   /* Now we're going to scan through and set crossings AND EDGES. */
 
   for(cr=0;cr<crbuf_used;cr++) {
@@ -3966,6 +3999,49 @@ ones we don't need.
 
   }
 
+  /* We're done with the crossing buffer. */
+  free(crbuf);
+
+  /* If the code is corrupt, the edges don't fit together into oriented
+     components or don't divide the sphere into ncross + 2 faces. */
+
+  bool pd_good = pd_edges_ok(pd);
+
+  if (pd_good) {
+
+    bool *seen = calloc(2*pd->nedges,sizeof(bool));
+    assert(seen != NULL);
+    pd_idx_t nfaces = 0, start;
+
+    for(start=0;start<2*pd->nedges;start++) {
+
+      pd_idx_t e = start/2;
+      pd_or_t orient = (start%2 == 1) ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION;
+
+      if (!seen[start]) { nfaces++; }
+
+      while(!seen[2*e + (orient == PD_POS_ORIENTATION ? 1 : 0)]) {
+
+	seen[2*e + (orient == PD_POS_ORIENTATION ? 1 : 0)] = true;
+	pdint_next_edge_on_face(pd,e,orient,&e,&orient);
+
+      }
+
+    }
+
+    free(seen);
+    pd_good = (nfaces == pd->ncross + 2);
+
+  }
+
+  if (!pd_good) {
+
+    printf("pd_read_KnotTheory: Crossings don't form a planar diagram. Suspect data is corrupt.\n");
+    pd_code_free(&pd);
+    return NULL;
+
+  }
+
   /* We can now detect everything else by regenerating... */
 
   pd_regenerate(pd);
@@ -3985,9 +4061,6 @@ ones we don't need.
 
   }
 
-  /* We're done with the crossing buffer. */
-  free(crbuf);
-
   /* We now make a final check, then terminate... */
 
   if (!pd_ok(pd)) {
-- 
2.43.0


From 671089065be7e648715578da604c73af14af6d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:32 +0000
Subject: [PATCH 016/116] fix: pd_comps_ok reads out of bounds on an illegal
 edge number

---
 src/pdcode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index d4946f9..50e59d0 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2384,6 +2384,12 @@ bool pd_comps_ok(pd_code_t *pd)
       e_idx = pd->comp[comp].edge[edge];
       n_idx = pd->comp[comp].edge[next_edge];
 
+      if (e_idx >= pd->nedges || n_idx >= pd->nedges) {
+
+	return pd_error(SRCLOC,"%COMP contains illegal edge number in pd %PD",pd,comp);
+
+      }
+
       if (pd->edge[e_idx].head != pd->edge[n_idx].tail ||
 	  (4 + pd->edge[e_idx].headpos - pd->edge[n_idx].tailpos) % 4 != 2) {
 
-- 
2.43.0


From 30cb045a32c55f0992934299c0178f140e338903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:46 +0000
Subject: [PATCH 017/116] fix: pd_ok and pd_read_KnotTheory accept disconnected
 nonplanar codes

---
 src/pdcode.c | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 50e59d0..a3e000a 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2487,6 +2487,37 @@ bool pd_comps_ok(pd_code_t *pd)
 }
 
 
+static bool pdint_connected(pd_code_t *pd)
+
+/* Checks whether the edges connect all the crossings. */
+
+{
+  bool *reached = calloc(pd->ncross,sizeof(bool));
+  assert(reached != NULL);
+  pd_idx_t edge, nreached = 1, last_nreached = 0;
+  reached[0] = true;
+
+  while(nreached != last_nreached) {
+
+    last_nreached = nreached;
+
+    for(edge=0;edge<pd->nedges;edge++) {
+
+      if (reached[pd->edge[edge].head] != reached[pd->edge[edge].tail]) {
+
+	reached[pd->edge[edge].head] = reached[pd->edge[edge].tail] = true;
+	nreached++;
+
+      }
+
+    }
+
+  }
+
+  free(reached);
+  return (nreached == pd->ncross);
+}
+
 bool pd_faces_ok(pd_code_t *pd)
 
 /* Checks face data */
@@ -2620,6 +2651,14 @@ bool pd_faces_ok(pd_code_t *pd)
 
   free(side_seen);
 
+  /* If the diagram isn't connected, having ncross + 2 faces doesn't show that it's planar. */
+
+  if (!pdint_connected(pd)) {
+
+    return pd_error(SRCLOC,"diagram is not connected in pd %PD",pd);
+
+  }
+
   /* Check that each face is rotated into canonical order */
 
   for(face=0;face<pd->nfaces;face++) {
@@ -4011,7 +4050,7 @@ ones we don't need.
   /* If the code is corrupt, the edges don't fit together into oriented
      components or don't divide the sphere into ncross + 2 faces. */
 
-  bool pd_good = pd_edges_ok(pd);
+  bool pd_good = pd_edges_ok(pd) && pdint_connected(pd);
 
   if (pd_good) {
 
-- 
2.43.0


From badce178616c9fc6e73c43c725d083943f1ab889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:40 +0000
Subject: [PATCH 018/116] fix: unpacking a code with unset crossing signs makes
 all crossings negative

---
 src/pd_pack.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index d1236c0..664885f 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -423,6 +423,17 @@ pd_code_t *pd_unpack(unsigned int *bitform)
      and it should be ok to call pd_regenerate. */
 
   pd_regenerate(pd);
+
+  /* The packed form of an unsigned code doesn't set signs. (We do this
+     after regenerating, since pd_regenerate discards the edge orientations
+     when the signs are unset.) */
+
+  if (crtype == UNSIGNED_CROSSINGS) {
+
+    for(k=0;k<pd->ncross;k++) { pd->cross[k].sign = PD_UNSET_ORIENTATION; }
+
+  }
+
   assert(pd_ok(pd));
   
   return pd;
-- 
2.43.0


From deebf35ddc800379607e1aefdd77ab2c1eec3a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:40 +0000
Subject: [PATCH 019/116] fix: packing (and hence storing) the 0-crossing
 unknot aborts

---
 src/pd_pack.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index 664885f..e094c4a 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -302,6 +302,13 @@ unsigned int *pd_pack(pd_code_t *pd,unsigned int *packedlength)
   int k;
   bool crossings_consistent = true;
 
+  if (pd->ncross == 0) { /* There's nothing to pack but the number of crossings */
+
+    *packedlength = 1;
+    return calloc(1,sizeof(unsigned int));
+
+  }
+
   if (pd->cross[0].sign == PD_UNSET_ORIENTATION) {
 
     for(k=1;k<pd->ncross;k++) {
@@ -387,6 +394,8 @@ pd_code_t *pd_unpack(unsigned int *bitform)
   
   pd_idx_t ncross;
   pd_signcross_t crtype;
+
+  if (bitform[0] == 0) { return pd_build_unknot(0); }
   
   if ((int)(bitform[0]) > 0) {
 
-- 
2.43.0


From dcd65aa23e7649bebff4fae1e2ef0362f295a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:40 +0000
Subject: [PATCH 020/116] fix: pd_display_pdstor crashes on an empty pdstor;
 pd_read_pdstor accepts a corrupt header unless PD_VERBOSE is set

---
 src/pd_storage.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index c2852af..d0c19a9 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -542,6 +542,8 @@ void pd_display_pdstor(FILE *stream,pd_stor_t *pdstor) /* Prints a representatio
   pd_uid_t   uid_min,uid_max;
 
   pd = pd_stor_firstelt(pdstor);
+  if (pd == NULL) { return; } /* There's nothing to list. */
+
   strncpy(cur_hash,pd->hash,32);
   uid_min = pd->uid;
   uid_max = pd->uid;
@@ -742,10 +744,11 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
       if (PD_VERBOSE) {
 
 	printf("pd_read_pdstor: Header of pdstor file appears corrupt.\n");
-	return NULL;
 
       }
 
+      return NULL;
+
     }
 
     nelts = nelts_claimed;
-- 
2.43.0


From c5a21cc85699662bfdbe3694988bc6b6f6c55818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:03 +0000
Subject: [PATCH 021/116] fix: pd_read accepts a diagram whose face list is
 incomplete

---
 src/pdcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index a3e000a..9d860b6 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3741,7 +3741,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   pd_regenerate_crossings(pd); /* If the crossings were not in canonical order, fix it. */
 
-  if (!pd_ok(pd)) {
+  if (!pd_ok(pd) || pd->nfaces != pd->ncross + 2) {
 
     pd_err_set(err, PD_NOT_OK);
     pd_code_free(&pd);
-- 
2.43.0


From 6590c2c1df70d66c6c02cbff06d52b8c78e82e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:09 +0000
Subject: [PATCH 022/116] fix: pd_map_isomorphic crashes on 0-crossing diagrams

---
 src/pd_isomorphisms.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 510598a..aba3334 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2825,7 +2825,7 @@ pd_iso_t **pdint_build_map_isomorphisms(pd_code_t *pdA,pd_code_t *pdB,
 
       for(map=0;map<nmaps && !abortflag;map++) { /* We have actually generated an isomorphism! */
 
-          if(crossmaps[map]->orient == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
+          if((pdA->ncross == 0 ? facemaps[map]->orient : crossmaps[map]->orient) == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
 
               pd_iso_t *new_iso;
               new_iso = calloc(1,sizeof(pd_iso_t)); assert(new_iso != NULL);
-- 
2.43.0


From 37e57033eb53cc3690a4a73ef03c1cbe0c3992bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:35 +0000
Subject: [PATCH 023/116] fix: pd_diagram_isotopic exits the program when the
 component tags differ

---
 src/pd_isomorphisms.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index aba3334..fec672b 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2562,11 +2562,12 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
     }
 
-    if (!tag_found) { /* Something weird has happened. */
+    if (!tag_found) { /* The diagrams have different tags, so they can't be isotopic. */
 
-      pd_error(SRCLOC,"couldn't find tag from %COMP of pdA = %PD in",pdA,i);
-      pd_error(SRCLOC,"pdB = %PD\n",pdB);
-      exit(1);
+      pd_free_perm((void **)(&comp_perm));
+      pd_free_container(&isos,pd_free_fake);
+      *nisos = 0;
+      return NULL;
 
     }
 
-- 
2.43.0


From 9b4f48583335a10886d00eb82379d1c20fb3210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:05 +0000
Subject: [PATCH 024/116] fix: pd_diagram_isotopic exits the program when
 matching tags are in a different order

---
 src/pd_isomorphisms.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index fec672b..2674268 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2575,6 +2575,8 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
   /* We SHOULD have assembled a permutation of components. */
 
+  pd_regenerate_pcidx(comp_perm); /* We filled in the map by hand. */
+
   if (!pd_perm_ok(comp_perm)) {
 
     pd_error(SRCLOC,"matching tags in pd_diagram_isotopic yielded component permutation %PERM, which is not ok\n",pdA,comp_perm);
-- 
2.43.0


From b9e703c15073851c11255d506e6da25b4d39b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:05 +0000
Subject: [PATCH 025/116] fix: pd_stareq_perm leaves a stale precomputed index

---
 src/pd_perm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_perm.c b/src/pd_perm.c
index 41cf09b..20d3542 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -501,6 +501,8 @@ void pd_stareq_perm(pd_perm_t *A,pd_perm_t *B)
   
   memcpy(A->map,newmap,n*sizeof(pd_idx_t));
   free(newmap);
+
+  pd_regenerate_pcidx(A); /* The map changed, so the old index is stale. */
 }
   
 unsigned int pd_perm_period(pd_perm_t *A) 
-- 
2.43.0


From 1d6fdf91d0a91b2450799e362b6ad3401cbfa4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:12 +0000
Subject: [PATCH 026/116] fix: pd_diagram_isotopic and the isomorphism lists
 confuse the two ends of edges of one- and two-edge components

---
 src/pd_isomorphisms.c | 55 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 2674268..ffb13f3 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -956,6 +956,48 @@ int  pd_crossmap_cmp(const void *A,const void *B)
 }
 
 
+static bool pdint_crossmap_follows_edgemap(pd_code_t *pdA,pd_code_t *pdB,
+					   pd_edgemap_t *edgemap,pd_crossmap_t *crossmap)
+
+/* Matching the edge numbers around each crossing doesn't determine which END of
+   an edge goes where if a component has only one or two edges. So we check that
+   the end of the edge in each position at each crossing goes to the corresponding
+   position, taking into account whether the edge is reversed. */
+
+{
+  pd_idx_t cross;
+  pd_pos_t pos, firstpos = 0;
+
+  for(cross=0;cross<pdA->ncross;cross++) {
+
+    for(pos=0;pos<4;pos++) {
+
+      pd_idx_t e = pdA->cross[cross].edge[pos];
+      pd_edge_t *image = &(pdB->edge[edgemap->perm->map[e]]);
+      bool is_head = (pdA->edge[e].head == cross && pdA->edge[e].headpos == pos);
+
+      if (edgemap->orient[e] == PD_NEG_ORIENTATION) { is_head = !is_head; }
+
+      pd_idx_t image_cross = is_head ? image->head : image->tail;
+      pd_pos_t image_pos   = is_head ? image->headpos : image->tailpos;
+
+      if (pos == 0) { firstpos = image_pos; }
+
+      if (image_cross != crossmap->perm->map[cross] ||
+	  image_pos != (firstpos + (crossmap->orient == PD_POS_ORIENTATION ? pos : 4 - pos)) % 4) {
+
+	return false;
+
+      }
+
+    }
+
+  }
+
+  return true;
+
+}
+
 pd_crossmap_t *pdint_build_oriented_crossmap(pd_code_t *pdA,pd_code_t *pdB,
 					     pd_edgemap_t *edgemap,pd_or_t orient)
 
@@ -1086,6 +1128,13 @@ pd_crossmap_t *pdint_build_oriented_signed_crossmap(pd_code_t *pdA,pd_code_t *pd
   /* We have now generated the map for the permutation, but not
      identified it with a precomputed perm. We try: */
 
+  if (!pdint_crossmap_follows_edgemap(pdA,pdB,edgemap,crossmap)) {
+
+    pd_free_crossmap(&crossmap);
+    return NULL;
+
+  }
+
   pd_regenerate_pcidx(crossmap->perm);
 
   return crossmap;
@@ -1552,6 +1601,9 @@ pd_iso_t **pdint_build_isos(pd_code_t *pdA,pd_code_t *pdB,
 
       for(map=0;map<nmaps && !abortflag;map++) { /* We have actually generated an isomorphism! */
 
+	if (pdA->ncross > 0 &&
+	    !pdint_crossmap_follows_edgemap(pdA,pdB,edgemaps[edgemap],crossmaps[map])) { continue; }
+
 	pd_iso_t *new_iso;
 	new_iso = calloc(1,sizeof(pd_iso_t)); assert(new_iso != NULL);
 
@@ -2828,6 +2880,9 @@ pd_iso_t **pdint_build_map_isomorphisms(pd_code_t *pdA,pd_code_t *pdB,
 
       for(map=0;map<nmaps && !abortflag;map++) { /* We have actually generated an isomorphism! */
 
+          if (pdA->ncross > 0 &&
+              !pdint_crossmap_follows_edgemap(pdA,pdB,edgemaps[edgemap],crossmaps[map])) { continue; }
+
           if((pdA->ncross == 0 ? facemaps[map]->orient : crossmaps[map]->orient) == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
 
               pd_iso_t *new_iso;
-- 
2.43.0


From e0b1c50c1c0fb3bba948be620d53ddb1afd75890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:27 +0000
Subject: [PATCH 027/116] fix: pd_read_pdstor never accepts a file whose header
 leaves the number of elements open

---
 src/pd_storage.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index d0c19a9..f149c98 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -17,6 +17,7 @@
 #include<stdio.h>
 #include<string.h>
 #include<stdlib.h>
+#include<ctype.h>
 
 #ifdef HAVE_STDBOOL_H
   #include<stdbool.h>
@@ -709,6 +710,7 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
   unsigned int nelts_claimed,nelts_actual;
   unsigned int nhashes;
   unsigned int nelts;
+  bool open_ended = false; /* Number of elements not in header: read until EOF */
   
   if (fscanf(stream,"pdstor nelts %u/%u (claimed/actual) nhashes %u",
 	     &nelts_claimed,&nelts_actual,&nhashes) != 3) {
@@ -736,6 +738,7 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
     }
 
     nelts = UINT_MAX; /* Very large number! */
+    open_ended = true;
 
   } else { /* fscanf worked! */
 
@@ -763,6 +766,15 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
   for(elt=0;elt<nelts && !feof(stream);elt++) {
 
+    if (open_ended) { /* Stop if there's only whitespace left in the file. */
+
+      int nextc;
+      do { nextc = fgetc(stream); } while (isspace(nextc));
+      if (nextc == EOF) { break; }
+      ungetc(nextc,stream);
+
+    }
+
     if (PD_VERBOSE) { /* Actually draw a progress bar */
 
       printf("pd_read_pdstor: Read %u of %u pdcodes.\r",elt,nelts);
@@ -787,7 +799,7 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
   }
 
-  if (elt != nelts) { 
+  if (elt != nelts && !open_ended) { 
 
     if (PD_VERBOSE) { printf("pd_read_pdstor: Only read %u of %u elements from file.\n",elt,nelts); }
     pd_free_pdstor(&pdstor);
-- 
2.43.0


From ba8e7976d15aae075c8150137c4fce538e30afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:15 +0000
Subject: [PATCH 028/116] fix: pdcode_to_ccode overruns its buffer on a
 0-crossing diagram, pd_homfly_timeout leaks the code on timeout

---
 src/plcTopology.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index aa5335b..2ee56e3 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -194,7 +194,7 @@ char *pdcode_to_ccode(pd_code_t *pd)
 
 {
   char *ccode;
-  int   ccode_size = 256*pd->ncross;
+  int   ccode_size = 256*(pd->ncross+1); /* Leave room for the trailing newlines. */
 
   ccode = calloc(ccode_size,sizeof(char)); /* Get room for a big string */
 
@@ -305,6 +305,7 @@ char *pd_homfly_timeout(pd_code_t *pd, int timeout)
   }
 
   if (homfly_lmpoly == NULL) {
+      free(ccode);
       return NULL; // NULL signifies timeout or other error in plc_lmpoly
   }
 
-- 
2.43.0


From 1070f4b9b714d56f83c7f4d5d0290876d7a784ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:15 +0000
Subject: [PATCH 029/116] fix: plc_lmpoly does not return for the crossing code
 of a 0-crossing diagram

---
 src/pllmpoly02.c | 4630 +++++++++++++++++++++++-----------------------
 1 file changed, 2315 insertions(+), 2315 deletions(-)

diff --git a/src/pllmpoly02.c b/src/pllmpoly02.c
index f8dab8b..f2b96ed 100644
--- a/src/pllmpoly02.c
+++ b/src/pllmpoly02.c
@@ -1,2315 +1,2315 @@
-/*          FAST VERSION       */
-/* A load balanced calculation of the oriented polynomial  Ver 1.1f */
-/* Bruce Ewing and Kenneth C. Millett  (author: Ewing)    Feb 5, 01 */
-/* Department of Mathematics */
-/* University of California */
-/* Santa Barbara, CA 93106 */
-/* there is a hard limit of 255 crossings in this program */
-
-#include <config.h>
-
-#ifdef HAVE_SIGNAL_H
-#include <signal.h>
-#endif
-
-#ifdef HAVE_SYS_TYPES_H
-#include <sys/types.h>
-#endif
-
-#ifdef HAVE_SYS_TIMES_H
-#include <sys/times.h>
-#endif
-
-#include <stdio.h>
-#include <stdlib.h>
-
-#ifdef HAVE_UNISTD_H
-#include <unistd.h>
-#endif
-
-#ifdef HAVE_FCNTL_H
-#include <fcntl.h>
-#endif
-
-#include <string.h>
-#include <time.h>
-#include <assert.h>
-
-  /* values the USER needs to define!! */
-#define XCNT       250     /* maximum crossings in knot (at most 255) */
-#define XCNTSQ   62500     /* YOU MUST CALCULATE XCNT SQUARED! */
-#define XCSQTR  187500     /* YOU MUST CALCULATE XCNTSQ times THREE! */
-
-
-/* system values -- it's best if these are not touched */
-#define EOFCHR       0     /* integer value of my "end of file" character */
-#define MAXBIL   32767     /* positive value where overflow warning triggers */
-
-#define MAXPOLY  12000     /* Maximum # of characters for output poly */
-
-/* globals */
-
-typedef struct state_struct {
-
-  int readpos;
-  int writepos;
-
-  long plybuf[XCNTSQ], *poly[XCNT], notbeg, count[XCNT], b[XCNT+1];
-  unsigned char sign[XCNT], donlnk[XCNT+1], t[XCNT+2], crsbuf[XCNT+1][8];
-  unsigned char buf[XCSQTR], cbuf[10242], clist[XCNT+2], stc[XCNT*2];
-  short numcrs, numlps, poslnk, neglnk, lowx, restrt, gapsto[65];
-  short tt[XCNT+2], bstlst[XCNT], bilbuf[XCNTSQ], *bilion[XCNT], suplng;
-
-} lmpoly_state_t;
-
-/* Prototypes for later functions */
-
-void mypause(int sig);
-int  ntc(long i,char *buf,lmpoly_state_t *state);
-int  conchk(lmpoly_state_t *state);
-void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state);
-void squish(short sqush,lmpoly_state_t *state);
-void sqush2(short n,short g, lmpoly_state_t *state);
-void triple(short m,short i,unsigned char *p,lmpoly_state_t *state);
-void untwst(short l,short n,short i,short ex,lmpoly_state_t *state);
-void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state);
-int  tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state);
-void delpow(lmpoly_state_t *state);
-void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state);
-int  bust(short tobust,short xpow,short ypow,lmpoly_state_t *state);
-int  skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state);
-
-int strread(char *str,void *buffer,size_t size,lmpoly_state_t *state)
-
-/* Reads up to size characters from string, copying the results to buffer. */
-/* We keep a (global) count of our position in the string internally.      */
-/* Return the number of characters read, or 0 at the end of the string.    */
-/* We don't copy the terminating NULL from str. */
-
-{
-  int ctried,cread;
-
-  for(ctried=0,cread=0;ctried < size;ctried++) {
-
-    if (str[(state->readpos)] != 0) {
-
-      ((char *) buffer)[cread++] = str[(state->readpos)++];
-
-    }
-
-  }
-
-  return cread;
-}
-
-int strwrite(char *str,char *buffer,size_t size,lmpoly_state_t *state)
-
-/*   Writes size characters from buffer to str. Returns the number of  */
-/*   characters written. We keep a static counter of where we are in   */
-/*   the string. */
-
-{
-  int ctried,cwrote;
-
-  for(ctried=0,cwrote=0;ctried < size;ctried++) {
-
-    str[(state->writepos)++] = buffer[cwrote++];
-
-    if ((state->writepos) > MAXPOLY-1) {
-
-      printf("lmpoly: Output polynomial larger than %d characters.\n",
-	     MAXPOLY);
-
-      exit(1);
-
-    }
-
-  }
-
-  return cwrote;
-}
-
-
-char *plc_lmpoly(char *code, int timeout)
-/* This version takes a timeout in seconds. Returns NULL pointer if the computation takes too long. */
-{
- register short i, j, k, h, m, n, *sp;
- register unsigned char *p, *c;
- int in = 0, out, stats, len, len2, pause();
- long lngi, *lp1, *lp2, kstrt, cmpval;
- short g, xpow, ypow, dspair[4], maxcrs, chksiz, nopro, skflag;
- unsigned char nbuf[82], *q, *s;
- //struct tms hi;
- char *outpoly;
-
- clock_t start,end;
- double  cpu_time_used;
-
- lmpoly_state_t *state = calloc(1,sizeof(lmpoly_state_t));
- assert(state != NULL);
-
- start = clock();
-
- if (code == NULL) { free(state); return NULL; }
-
- /* It's possible that we'll be fed a code with only one crossing */
- /* This will crash the rest of the code, so we insert some stuff here */
- /* to catch this case and return [[0]]N for the unknot. --JHC */
-
- int newlinecount = 0;
- char *codeptr;
- for(codeptr = code;codeptr != NULL;) {
-
-   codeptr = strchr(codeptr,'\n');
-   if (codeptr != NULL) {
-     newlinecount++;
-     codeptr++;
-   }
-
-} /* Count newlines */
-
- if (newlinecount == 3) { /* Exactly one crossing */
-
-   outpoly = calloc(128,sizeof(char));
-   sprintf(outpoly,"[[1]]N ");
-   free(state);
-   return outpoly;
-
- }
-
-/* Now back to your regularly scheduled programming. */
-
- outpoly = calloc(MAXPOLY,sizeof(char)); // Space for a large polynomial
- (state->readpos) = 0;  // Reset the globals
- (state->writepos) = 0;
-
- maxcrs=XCNT;    /* maximum crossings in a knot, including all limits */
- chksiz= 50;     /* knot size trigger where (state->bilion) is checked, stats printed */
- *(state->sign)= 255;      /* do 3 tests on the machine to verify trick operation */
- i= (short) *(state->sign);
- if (i< (lngi=0)){
-  write (1,"unsigned char problem - can't calculate knot >127 crossings\n",60);
-  if (maxcrs>127) maxcrs=127;
- }
- kstrt= 0x01020304;
- p= (unsigned char *) &kstrt;
- c= (unsigned char *) &lngi;
- *(c++)= *(p++);
- *(c++)= *(p++);
- *(c++)= *(p++);
- *c= *p;
- if (lngi!= 0x01020304){
-  write (1,"long int pointer copy problem -- halt/restart won't work\n",57);
- }
- *nbuf= nbuf[1]= nbuf[2]= nbuf[3]= 0;
- (state->t)[0]=1;
- (state->t)[1]=2;
- (state->t)[2]=3;
- (state->t)[3]=4;
- lp1= (long *) (state->t);
- lp2= (long *) nbuf;
- *lp2= *lp1;
- if (*nbuf!=1 || nbuf[1]!=2 || nbuf[2]!=3 || nbuf[3]!=4){
-  write (1,"4 byte copy problem -- use PORTABLE PROGRAM version!\n",53);
-  exit (1);
- }
- if (sizeof(lngi)== ((state->suplng)=2)){
-  write(1,"halt/restart won't work, and watch for coefficient overflows\n",61);
-  cmpval= 10000;
-  chksiz= 20;
- }
- else cmpval= 1000000000;     /* how big a value fits in a poly memory slot? */
- if (sizeof(lngi)== 8) (state->suplng)= 1;
-
- // if (argc<2){
- // write (1,"usage:  lmpoly -rs knotfile [knotfile ...]\n",43);
- // exit (1);
- //}
-
- /* if ((out=open("lmknot.out",1))== -1){ */
-/*   if ((out=creat("lmknot.out",0644))== -1){ */
-/*    write (1,"fatal: cannot create output file 'lmknot.out'\n",46); */
-/*    exit (1); */
-/*   } */
-/*  } */
-/*  else lseek (out,(long) 0,2); */
-/*  close (out); */
-
- *(state->count)= (state->restrt)= i= j= kstrt= nopro= 0;
- stats= -1;
-
- /* This code appears to detect "restarts" and "stats", neither of which
-    we are currently implementing. */
-
- /* if (*argv[1]=='-'){
-  if (argc==2 && argv[1][1]=='r'){
-   (state->restrt)=1;
-   if (argv[1][2]=='s') stats= 0;
-  }
-  else if (argv[1][1]=='s'){
-   stats= 0;
-   ++argv;
-   --argc;
-  }
-  } */
-
-
- signal(SIGTERM,mypause); // Not sure what this does.
-
- lp1= state->plybuf;
- sp= (state->bilbuf);
- while (j<XCNT){
-  (state->poly)[j]= lp1;
-  (state->bilion)[j]= sp;
-  lp1+= 1+ 2* (XCNT- ++j);
-  sp+= 1+ 2* (XCNT-j);
- }
-NEWFIL:
-
- /* We comment out some "stats" code, since we won't display stats anyway. */
-
- /* if (stats>0){     // remove stats info for previous knot file
-  i= strlen(*argv);
-  c= (unsigned char *) *argv+i-1;
-  if (i>11) i=11;
-  while (i--!=0 && *c!='/') --c;
-  p=t;
-  while (*++c!=0) *(p++)= *c;
-  *(p++)= '.';
-  *(p++)= 'l';
-  *p=0;
-  close (stats);
-  unlink(t);
-  } */
- /* if (--argc==0) exit(0); */ /* This was the exit point for the program */
-
- /* We also comment out some "restart" code since we aren't restarting */
-
- /*if ((state->restrt)!=0){           // if I am restarting an old calculation
-  if ((in=open("lmpoly.(state->restrt)",0))== -1){
-   write (1,"couldn't find restart file\n",27);
-   exit (0);
-  }
-  read (in,nbuf,82);
-  read (in,(state->cbuf),12);
-  *argv= (char *) (state->cbuf);
-  read (in,(state->buf),7);
-  (state->numcrs)= *(state->buf);
-  xpow= (short) (state->buf)[2];
-  ypow= (short) (state->buf)[1];
-  (state->numlps)= (short) (state->buf)[3];
-  (state->poslnk)= (short) (state->buf)[4];
-  (state->neglnk)= (short) (state->buf)[5];
-  if (((state->buf)[6]&1) !=0) ypow= -ypow;
-  if (((state->buf)[6]&2) !=0) xpow|= 512;
-  read (in,*(state->crsbuf),(state->numcrs)*8);
-  i= 0;
-  while (i!=(state->numcrs)){
-   (state->sign)[i]= (state->crsbuf)[i][1]>>4;
-   (state->crsbuf)[i++][1]&=6;
-  }
-  p= (unsigned char *) &(state->lowx);
-  read (in,p,2);
-  p= (unsigned char *) &kstrt;
-  read (in,p,4);
-  p= (unsigned char *) &notbeg;
-  read (in,p,4);
-  read (in,(state->buf), (int) notbeg);
-  read (in,(char *) count,XCNT*4);
-  read (in,(char *) state->plybuf,4*XCNT*XCNT);
-  read (in,(char *) (state->bilbuf),2*XCNT*XCNT);
-  close (in);
-  in=0;
-  s= (state->cbuf)+14;
-  *s= EOFCHR;
- }
- else if ((in=open(*++argv,0))==-1){
-  write (1,"cannot open ",12);
-  write (1,*argv,strlen(*argv));
-  write (1,", skipping\n",11);
-  goto NEWFIL;
- }
- if (stats>=0){
-  i= strlen(*argv);
-  q= (unsigned char *) *argv+i-1;
-  if (i>11) i=11;
-  while (i--!=0 && *p!='/') --q;
-  p=t;
-  while (*++q!=0) *(p++)= *q;
-  *(p++)= '.';
-  *(p++)= 'l';
-  *p=0;
-  if ((stats=creat(t,0644)) <0) stats=0;
- }
- if ((state->restrt)!=0){
-  if (stats>0){
-   write (stats,nbuf,strlen(nbuf));
-   write (stats,"\n",1);
-  }
-  (state->restrt)=0;
-  goto STEP1; // restart file has set up all NEWNOT data already
- }
- */
-
- c = (state->cbuf);
-
- /* This code fragment copies the input file into a character buffer,
-    appending the EOF character to the end of the string. Instead, we
-    copy our input "code" buffer into the (state->cbuf) array.
-
-    Original code:
-
-    c[read(in,c,10240)]= EOFCHR;
-
- */
-
- int   mypos;
- for(mypos = 0;code[mypos] != 0 && mypos < 10240-1;mypos++) {
-   c[mypos] = code[mypos];
- }
- c[mypos]= EOFCHR;
-
- while (*c=='\n') ++c;
-
- s=c;
-NEWNOT:
- i= XCNT-1;
- while (i!=0 && (state->count)[i]==0) --i;
- if (*(state->count)!= ((state->numcrs)=0)){
-  if (stats>=0){
-   if ((out=open("lmknot.stats",1))== -1) out=creat("lmknot.stats",0644);
-   else lseek (out,(long) 0,2);
-  }
-/*   if (stats>=0 && out>0){ */
-/*    write (out,nbuf,strlen(nbuf)); */
-/*    write (out,"\n",1);     /\* write out statistics for knot just completed *\/ */
-/*    lngi=0; */
-/*    while (i!=0){ */
-/*     write (out,t,ntc((long)(i+1),t,state)); */
-/*     write (out,"     ",5); */
-/*     write (out,t,ntc(count[i],t)+1,state); */
-/*     lngi+= count[i--]; */
-/*    } */
-/*    write (out,"\ntotal: ",8); */
-/*    write (out,t,ntc(lngi,t,state)+1); */
-/*    write (out,"run: ",5); */
-/*    times(&hi); */
-/*    lngi= ((hi.tms_utime-kstrt)*5)/3; */
-/*    write (out,t,ntc(lngi/100,t,state)); */
-/*    write (out,".",1); */
-/*    len= ntc(lngi%100,t,state); */
-/*    write (out,"0",2-len); */
-/*    write (out,t,len); */
-/*    write (out," s\n\n",4); */
-/*    kstrt= hi.tms_utime; */
-/*    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40); */
-/*    close (out); */
-/*   } */
-  k= XCNT;
-  i=0;
-  while (k!=0 && i==0){
-   i= 2+ 2*(XCNT-k);
-   lp1= (state->poly)[--k];
-   sp= (state->bilion)[k];
-   while (--i!=0 && *lp1==0 && *(sp++)==0) ++lp1;
-  }
-  if (i!=0){
-
-    /* Original code:
-
-       if ((out= open("lmknot.out",1))<0) out=open("temp.out",1);
-
-       lseek (out,(long) 0,2);
-       write (out,nbuf,strlen(nbuf));
-       write (out,"\n",1); */
-
-    /* write out polynomial for knot just completed */
-
-    /* These lines would copy the first line of the crossing code into
-       the output. We don't need this, so we forget it */
-
-    /*strwrite(outpoly,(char *)(nbuf),strlen((char *)(nbuf)));
-      strwrite(outpoly," ",1); */
-
-    /*
-    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40);
-    if (count[1]!=0) write (out,"coefficient overflow error: output BAD\n",39);
-    */
-
-    if ((state->count)[2]<0) {
-
-      printf("lmpoly: knot became inconsistent.\n");
-      exit(1);
-
-    }
-
-    if ((state->count)[1]!=0) {
-
-      printf("lmpoly: coefficient overflow error.\n");
-      exit(1);
-
-    }
-
-    len=m= -1;
-    while (m++<k || (state->lowx) <= 0){
-        if ((state->lowx)== (i=0)) strwrite (outpoly,"[",1,state);
-        n= XCNT-m-1;
-        j= n*2;
-        while (j!=n && (state->poly)[m][j]==0 && (state->bilion)[m][j]==0) --j;
-        while (i!=n && (state->poly)[m][i]==0 && (state->bilion)[m][i]==0) ++i;
-        if (len==0 || (state->lowx)>=0 || i!=j || (state->poly)[m][i]!=0 || (state->bilion)[m][i]!=0){
-            while (i<=j){
-                if (i==n) strwrite (outpoly,"[",1,state);
-                h=0;
-                lngi= (state->poly)[m][i];
-                if (lngi>=cmpval || lngi<= -cmpval){
-                    h= lngi/cmpval;
-                    lngi-= h* cmpval;
-                }
-                h+= (state->bilion)[m][i];
-                if (h*lngi <0){   /* (state->bilion) and poly are different signs */
-                    if (h<0){
-                        lngi-= cmpval;
-                        ++h;
-                    }
-                    else {
-                        lngi+= cmpval;
-                        --h;
-                    }
-                }
-                if (h!=0){
-                    if (lngi<0) lngi= -lngi;
-                    strwrite (outpoly,(char *)(state->t),ntc((long) h,(char *)(state->t),state),state);
-                    len= ntc(lngi,(char *)(state->t),state);
-                    if (cmpval==10000) len2= 4-len;
-                    else len2= 9-len;
-                    strwrite (outpoly,"00000000",len2,state);
-                    strwrite (outpoly,(char *)(state->t),len,state);
-                }
-                else strwrite (outpoly,(char *)(state->t),ntc(lngi,(char *)(state->t),state),state);
-                if (i++ ==n) strwrite (outpoly,"]",1,state);
-                if (i<=j) strwrite (outpoly," ",1,state);
-            }
-            if ((state->lowx)== (len=0)) strwrite (outpoly,"]",1,state);
-            strwrite (outpoly,"N",1,state);
-        }
-        ++(state->lowx);
-    }
-  }
-  strwrite (outpoly," ",1,state);
-  /* close(out); */ /* We are done writing the polynomial, so return */
-  free(state);
-  return outpoly;
- }
- i= XCNT;
- while (i!=0) (state->count)[--i]=0; /* Erase the (state->count) buffer */
- c=s;
- *nbuf=0;                   /* Erase the nbuf string? */
- if (*c!='1' || (*(c+1)!='+' && *(c+1)!='-')){
-  /* Copy first line of 's' into nbuf */
-  p= nbuf;
-  while (*c!='\n' && *c!= EOFCHR) *(p++)= *(c++);
-  *p= 0;
-  /* if (*c != EOFCHR && stats>0){ */
-/*    lseek (stats,(long) 0,0); */
-/*    write (stats,nbuf,strlen(nbuf)); */
-/*    write (stats,"\n",1); */
-/*   } */
- }
- if (*c=='\n') ++c;
- p= *(state->crsbuf);
- while (*c!='\n' && *c!=EOFCHR){
-  if ((state->numcrs)==maxcrs){
-    //write (1,"too many crossings in knot\n",27);
-    printf("lmpoly: too many crossings in knot\n");
-    free(outpoly);
-    free(state);
-    return NULL;
-  }
-  while (*c>='0' && *c<='9') ++c;
-  if (*c=='+') (state->sign)[(state->numcrs)]=6;      /* (state->sign)[] says what crossings are + or - */
-  else if (*c=='-') (state->sign)[(state->numcrs)]=2;
-  else if (*c==EOFCHR) --c;
-  else {
-    //write (1,"the format of this knot is unreadable, skipping file\n",53);
-    //close (in);
-    //goto NEWFIL;
-    printf("lmpoly: Could not parse input string.\n");
-    free(outpoly);
-    free(state);
-    return NULL;
-  }
-  ++c;
-  j=4;
-  while (j--!= (i=0) && *c!=EOFCHR){
-   while (*c>='0' && *c<='9'){
-    i*=10;
-    i+= *(c++)-0x30;
-   }
-   if (i==0){
-     //write (1,"the format of this knot is unreadable, skipping file\n",53);
-     //close (in);
-     //goto NEWFIL;
-     printf("lmpoly: Could not parse input string.\n");
-     free(outpoly);
-     free(state);
-     return NULL;
-   }
-   *(p++)= i-1;
-   if (*c!=EOFCHR){
-    if (*c<'a' || *c>'d'){
-      //write (1,"the format of this knot is unreadable, skipping file\n",53);
-      //close (in);
-      //goto NEWFIL;
-      printf("lmpoly: Could not parse input string.\n");
-      free(outpoly);
-      free(state);
-      return NULL;
-    }
-    *(p++)= (*(c++)-'a')*2;
-   }
-  }
-  ++(state->numcrs);
-  if (*c=='\n') ++c;
- }
- if (*c==EOFCHR){
-  c=(state->cbuf);
-  len=10240;
-  while (*s!=EOFCHR){
-   *(c++)= *(s++);
-   --len;
-  }
-  if (in!=0 && (i=read(in,c,len))!=0){
-   c[i]=EOFCHR;
-   c=(state->cbuf);
-   while (*c=='\n') ++c;
-   s=c;
-   goto NEWNOT;
-  }
-  *c= EOFCHR;
-  if (in!=0){
-   close (in);
-   in=0;
-  }
-  else goto NEWFIL;
-  if ((state->numcrs)<2) goto NEWFIL;
- }
- while (*c=='\n') ++c;
- s=c;
- lp1= *(state->poly);
- sp= *(state->bilion);
- lngi= XCNT*XCNT;
- while (--lngi!=0) *(lp1++)= *(sp++)= 0;
- (state->notbeg)=(state->numlps)=(state->poslnk)=(state->neglnk)= xpow= ypow= 0;
- if (conchk(state)!=0) exit(0);
- *(state->count)=1;
-STEP1:
- skflag=0;
-RESTRT:
- if ((state->restrt)!=0){
-   /* We don't include the restart functionality for now. */
-
-  /* if ((out=creat("lmpoly.restrt",0644))!= -1){ */
-/*    write (out,nbuf,82); */
-/*    i= strlen(*argv)-11; */
-/*    if (i<0) i=0; */
-/*    write (out,*argv+i,12); */
-/*    *(state->cbuf)= (state->numcrs); */
-/*    if (ypow<0){ */
-/*     ypow= -ypow; */
-/*     (state->cbuf)[6]=1; */
-/*    } */
-/*    else (state->cbuf)[6]=0; */
-/*    if ((xpow&512) !=0) (state->cbuf)[6]|= 2; */
-/*    (state->cbuf)[1]= ypow; */
-/*    (state->cbuf)[2]= xpow; */
-/*    (state->cbuf)[3]= (state->numlps); */
-/*    (state->cbuf)[4]= (state->poslnk); */
-/*    (state->cbuf)[5]= (state->neglnk); */
-/*    write (out,(state->cbuf),7); */
-/*    i= -1; */
-/*    while (++i!=(state->numcrs)) (state->crsbuf)[i][1]|= (state->sign)[i]<<4; */
-/*    write (out,*(state->crsbuf),(state->numcrs)*8); */
-/*    p= (un(state->sign)ed char *) &(state->lowx); */
-/*    write (out,p,2); */
-/*    times(&hi); */
-/*    kstrt-= hi.tms_utime; */
-/*    p= (un(state->sign)ed char *) &kstrt; */
-/*    write (out,p,4); */
-/*    p= (unsigned char *) &notbeg; */
-/*    write (out,p,4); */
-/*    write (out,buf, (int) notbeg); */
-/*    write (out,(char *) count,XCNT*4); */
-/*    write (out,(char *) state->plybufn,4*XCNT*XCNT); */
-/*    write (out,(char *) (state->bilbuf),2*XCNT*XCNT); */
-/*    close (out); */
-/*    close (stats); */
-/*    exit(0); */
-/*   } */
-   /*write (1,"couldn't create restart file 'lmpoly.restrt'\n",45);*/
-
-   printf("lmpoly: Warning! This version does not save"
-	  " restart info on quit.\n"
-	  "        Terminating run now.\n\n");
-   exit(0);
-   /*restrt=0; */
- }
-/* FIRST -- remove figure 8 loops, 2 cases  "#-#d#c#b#a"  "#+#b#a#d#c" */
-/* SECOND -- remove monogons (must recheck previous crossings) */
-/* 4 cases  "#+#b#a????"  "#+????#d#c"  "#-#d????#a"  "#-??#c#b??" */
-/* THIRD -- remove bigons -- make sure loops don't get forgotten. */
-/* 2 cases "k?mcmb???? m???kbka??"  "k?mc????md  m?????kakd" */
-/* bigon yanker MUST be completely thorough or loops can get lost later */
- *dspair=g= i= (state->numcrs);
- c=p= (state->crsbuf)[i];
- k=2;
- while (i--!=0){  /* loop through all crossings */
-  p-=8;
-  if (*p==i){
-   if (p[4]==i) ++(state->numlps);
-   else mrecon (p+4,p+(state->sign)[i],state);
-   squish (i,state);
-   goto STEP1;
-  }
-  else if (p[4]==i){
-    mrecon (p,p+((state->sign)[i]^4),state);
-    squish (i,state);
-   goto STEP1;
-  }
-   /* this bigon test checks that ka points to some mc, */
-    /* and kd to md, or kb to mb */
-  if (p[1]==4 && ((*p==p[6] && p[7]==6) || (*p==p[2] && p[3]==2))){
-   if ((j= *p) ==p[2]) k=6;
-   c= (state->crsbuf)[j];
-   if (p[4]==j) ++(state->numlps);
-   if (p[2]==p[6]) ++(state->numlps);
-   mrecon (p+4,c,state);
-   mrecon (p+k,c+k,state);
-   sqush2 (i,j,state);
-   goto STEP1;
-  }
-  (state->bstlst)[i]= 0;
- }
- if ((state->numcrs)<6) g=0;
-/* find very good and ok triples */
- while (g--!= (lngi=0)){
-  c-=8;
-  p= (state->crsbuf)[*c]+ ((c[1]^2)&2);
-  q= (state->crsbuf)[c[4]]+ ((c[5]^2)&2);
-  if ((i= c[2]) != (j= c[6]) && *c!=c[4]){
-   if ((m= *q) == (n= q[4])) m=n= -1;
-   if ((h= *p) == (k= p[4])) h=k= -1;
-   if ((h==i && k==j) || (j==h && k==i)) lngi=1;
-   if ((m==i && n==j) || (m==j && n==i)) lngi|=2;
-   if ((n==j || m==j) && (k==j || h==j)) lngi|=4;
-   if ((m==i || n==i) && (h==i || k==i)) lngi|=8;
-  }
-  else {
-   h=0;       /* there is a ring through this crossing */
-   if (i!=j){
-    i= *c;   /* on over branch */
-    h=2;
-   }
-   else if (*c==c[4]){
-    ++(state->numlps); /* knot's a distant union with a 2-link */
-    if ((state->sign)[g]==2) ++(state->neglnk);
-    else ++(state->poslnk);
-    sqush2 (g,i,state);
-    goto STEP1;
-   }
-   j=h;
-   c+=h;
-   if ((state->sign)[g]!=(state->sign)[i]) ++(state->numlps); /* loose ring */
-   else {
-    if ((state->sign)[g]==2) ++(state->neglnk);
-    else ++(state->poslnk);
-    j= h^2;
-   }
-   p= (state->crsbuf)[i]+j;  /* only do one mrecon unless I HAVE to do 2 */
-   q= c+4;
-   if (*c==i){
-    if ((c[1]&4) ==0) c= p+4;
-    else c=p;
-   }
-   else if (*q==i){
-    if ((q[1]&4) ==0) q= p+4;
-    else q=p;
-   }
-   else mrecon (p,p+4,state);
-   mrecon (c,q,state);
-   sqush2 (g,i,state);
-   goto STEP1;
-  }
-  if (lngi!=0){
-   k= lngi;
-   *dspair=1;
-   if ((k&3)!=0){
-    if ((c[3]&c[7]&2)!=0){
-      triple((short) ((k&2)<<1),g,c,state);
-     goto STEP1;
-    }
-    if (((c[3]^c[7])&2)!=0){
-     if ((c[((k&2)<<1)|1]&2)==0){
-      if ((state->sign)[c[(k&2)<<1]]!=(state->sign)[g]) (state->bstlst)[i]= (state->bstlst)[j]= -19;
-      else (state->bstlst)[i]= (state->bstlst)[j]= 8;
-     }
-     else {
-      n=8;
-      if ((state->sign)[c[(k&2)<<1]]==(state->sign)[g]) n= -8;
-      sp= (state->bstlst)+i;
-      if ((c[3]&2)!=0) sp= (state->bstlst)+j;
-      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
-     }
-    }
-    else {
-     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
-     else (state->bstlst)[g]-= 8;
-    }
-   }
-   if (k>3){
-    if (((c[1]|c[5])&2)==0){
-      triple((short) ((k&4)|2),g,c,state);
-     goto STEP1;
-    }
-    if (((c[1]^c[5])&2)!=0){
-     if ((c[(k&4)|3]&2)!=0){
-      if ((state->sign)[c[(k&4)|2]]!=(state->sign)[g]) (state->bstlst)[*c]= (state->bstlst)[c[4]]= -19;
-      else (state->bstlst)[*c]= (state->bstlst)[c[4]]= 8;
-     }
-     else {
-      n=8;
-      if ((state->sign)[c[(k&4)|2]]==(state->sign)[g]) n= -8;
-      sp= (state->bstlst) + c[4];
-      if ((c[1]&2)!=0) sp= (state->bstlst)+ *c;
-      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
-     }
-    }
-    else {
-     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
-     else (state->bstlst)[g]-= 8;
-    }
-   }
-  }
- }
- /* circuit remover */
- j= (state->numcrs)-1;
- if (j<3) j= -1;
- else if (j<11){    /* <12 will blow up */
-  p= *(state->crsbuf)+1;
-  i=(state->numcrs);
-  while (i--!=0 && *p!=4) p+=8; /* only non-alternating (a to c) knots */
-  if (i< (n=0)) j= -1;
-  else p= (state->crsbuf)[j]+5;   /* remove twists */
-  while (j>=0){
-   n^=4;
-   k= *(p--)^4;
-   if ((k&2) == 0){
-    c= (state->crsbuf)[*p]+k;
-    i= *c;
-    k= c[1]^4;
-    if ((k&2) != 0 && (state->crsbuf)[i][k]==j){
-      untwst ((short) *p,i,j,n,state);
-      squish (j,state);
-     goto STEP1;
-    }
-   }
-   if (n==0) --j;
-   p-=3;
-  }
- }
- g= (state->donlnk)[XCNT]= m= 0;
- while ((n=j) >= (*(state->tt)=(state->tt)[2]=h= 0)){
-  k=g;
-  do {
-   p= (state->crsbuf)[j]+k;
-   j= *p;
-   k= p[1]^4;
-   i= h;
-   p=(state->clist);
-   while (i--!=0 && *(p++) != j);
-   if (i>=0){
-    j= n;              /* circuit crosses itself */
-    goto NXTCIR; /* skip circuit, wait for a sub-piece that doesn't */
-   }
-   else {
-    ++(state->tt)[k&2];
-    *p= j;
-    (state->t)[h++]= (k&2)^2;
-   }
-  } while (n!=j);
-  if (k != g) --(state->tt)[k&2];
-  else k= -1;
-  if (*(state->tt)==0 || (state->tt)[2]==0){
-    rmcir(h,j,k,state->t,0,state);
-   goto STEP1;
-  }
-  if (tstcir(h,(state->bstlst),dspair,&skflag,state) !=0) goto RESTRT;
-  if (h==3){
-   (state->stc)[m++]=j; /* store vertex of 3 crossing circuit for (state->bstlst) later */
-   (state->stc)[m++]=g;
-   (state->stc)[m++]=k^4;
-  }
-NXTCIR:
-  if (g==0) g= (state->sign)[j];
-  else {
-   --j;
-   g=0;
-  }
- }
-/* if knot is tiny, store polynomial coefficients and restart a stored knot */
- if ((state->numcrs)<6){
-  lngi= 1;
-  if ((state->numcrs)==0) --(state->numlps);
-  delpow(state);
-  if ((xpow&512)!=0){
-   lngi= -1;
-   xpow&=511;
-  }
-  if ((state->numcrs)==4){
-   c= *(state->crsbuf);
-   p= c+4;
-   if (*p==*c || c[2]==p[2]){
-    g= -3;
-    if (*p==p[2] && *c==c[2]) g= -4;
-   }
-   else {
-    g= 0;  /* 0 is flag for knot */
-    i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    if (i!=16) g=2;     /* flag for 2 links   */
-   }
-  }
-  else if ((state->numcrs)==5){
-   n=10;
-   i=j= 0; /* step through knot, if don't get to end, it's a link */
-   do {
-    p= (state->crsbuf)[i]+j;
-    i= *p;
-    j= p[1]^4;
-    --n;
-   } while (i!=0 || j!=0);
-   if (n>0){
-    i=h= 0; /* 5 crossing 2 link  or twisted 3 link  or tref and 2 links */
-    g=m= 1;      /* or tref + link */
-    k= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
-    if (k>10 && k<30){
-     if (k>20){
-      while ((state->sign)[i]==6) ++i;
-     }
-     else {
-      while ((state->sign)[i]==2) ++i;
-     }
-     if (k==14 || k==26) goto FOURX;
-     c= (state->crsbuf)[i];
-     p= c+4;
-     if (*p==*c || p[2]==c[2]){
-      if (*p==p[2] && *c==c[2]) g=3;
-      else {
-       h=4;
-       if ((state->sign)[i]==6) m= -1;
-      }
-     }
-     else {
-      g=2;
-      j=0;
-      if ((state->sign)[*c]!=(state->sign)[i]) j=4;
-      k= c[j];
-      if ((state->crsbuf)[k][j]!=i){
-       if ((state->sign)[i]==6) m= -1;
-      }
-      else if ((state->sign)[i]==2) m= -1;
-     }
-    }
-    if (g==1){
-     if (h==0 && (state->sign)[i]==2) m= -1;
-     i=j=k= 5;
-     c= state->t;
-     while (j!=0) c[--j]=0;
-     while (k--!=0){
-      j= (state->sign)[k]; /* trefs + circles have fake bigons at all crossings */
-      p= (state->crsbuf)[k]; /* so find all fake bigons */
-      if (p[1]==(j^4) && (*p==p[2] || *p==p[6])) c[k]=c[*p]= 1;
-      if (p[5]==j && p[4]==p[j]) c[k]=c[p[4]]= 1;
-     }
-     while (--i>=0 && c[i]!=0);
-     if (i>=0){
-FOURX: /* found twisted 3 link -- "squish" twist before making polynomial */
-      while (++i!=6) (state->sign)[i-1]= (state->sign)[i];
-      (state->numcrs)=4;
-      g= -3;  /* flag for 4 crossing 3 links */
-     }
-     else {
-      p= *(state->crsbuf);
-      if (n==4 || (n==8 && *p==p[4] && p[2]==p[6])) g=3;
-     }
-    }
-   }
-   else g= -1; /* it's a knot! */
-  }
-  i= (*(state->sign))/2 -2;
-  k= xpow;
-  n=ypow;
-  p= *(state->crsbuf);
-  if ((state->numcrs)==5){
-   if (g<0){ /* knots */
-    if (i>0){
-     if (*p==p[6] && p[2]==p[4] && p[10]==p[12]) g= -2;
-    }
-    else if (*p==p[2] && p[4]==p[6] && p[8]==p[10]) g= -2;
-    if (g== -1){ /* knot five-two */
-      addin(lngi,(short)(n-i*6),k,0,0,state);      /* the flags at the end of addin  */
-      addin(lngi,(short)(n-i*4),k,-1,2,state);     /* let you do two addins at once, */
-      addin((long)-lngi,(short)(n-i*2),k,-1,2,state);    /* for addins with equal ypows.   */
-    }
-    else { /* knot five-one */
-     k+=2;
-     addin((long)(-4*lngi),(short)(n-i*4),k,0,0,state);
-     addin((long)-lngi,(short)(n-i*6),k,-2,-2,state);
-     addin(lngi,(short)(n-i*4),(short)(k+2),3,-4,state);
-    }
-   }
-   else { /* links */
-    if (g==1){ /* trefoil + circle */
-     if (h!=0){
-       addin(lngi,(short)(n-m*3),++k,-1,-2,state);
-       addin((long)(3*lngi),(short)(n-m),k,-1,-2,state);
-       addin(lngi,(short)(n+m),k,-2,-2,state);
-       addin((long)-lngi,(short)(n-m),(short)(k+2),0,0,state);
-     }
-     else {
-       addin((long)-lngi,(short)(n-m*7),--k,0,0,state);
-       addin((long)(-3*lngi),(short)(n-m*5),k,0,0,state);
-      k+=2;
-      addin((long)(3*lngi),(short)(n-m*3),k,0,0,state);
-      addin((long)(2*lngi),(short)(n-m*5),k,0,0,state);
-      addin((long)-lngi,(short)(n-m*3),(short)(k+2),2,-4,state);
-     }
-    }
-    else if (g==2){ /* 2 component link five-one */
-      addin((long)-lngi,(short)(n+m),--k,-2,2,state);
-      addin((long)-lngi,(short)(n-m),k,-1,2,state);
-      addin(lngi,(short)(n+m*3),(short)(k+2),0,0,state);
-      addin((long)-lngi,(short)(n+m),(short)(k+4),0,0,state);
-    }
-    else { /* trefoil and circle + circle */
-     i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
-     m=1;
-     if (i<20){
-      m= -1;
-      i= 40-i;
-     }
-     j= k-2;
-     if (i!=30){
-       addin(lngi,(short)(n-m*4),j,-1,2,state);
-       addin((long)(4*lngi),(short)(n-m*2),j,-1,2,state);
-       addin((long)(5*lngi),n,j,0,0,state);
-       addin((long)-lngi,(short)(n+m*2),k,-2,-2,state);
-      k+=2;
-      addin(lngi,n,k,-4,-2,state);
-      addin(lngi,(short)(n-m*2),k,0,0,state);
-     }
-     else {
-       addin(lngi,(short)(n-m*8),j,0,0,state);
-       addin((long)(5*lngi),(short)(n-m*4),j,0,0,state);
-       addin((long)(2*lngi),(short)(n-m*2),j,0,0,state);
-       addin((long)(-2*lngi),(short)(n-m*6),k,-2,-2,state);
-      k+=2;
-      addin(lngi,(short)(n-m*4),k,-5,-2,state);
-      addin(lngi,(short)(n-m*2),k,-3,-2,state);
-     }
-    }
-   }
-  }
-  else if ((state->numcrs)==4){
-   if (g==0){ /* knot 4-1 */
-     addin((long)-lngi,(short)(n-2),k,0,0,state);
-     addin((long)-lngi,n,k,-1,2,state);
-     addin((long)-lngi,(short)(n+2),k,0,0,state);
-   }
-   else if (g>0){
-    i=1;
-    if (*(state->crsbuf)[*p]==0){
-     if (*(state->sign)==6) i= -1; /* 2 link 4^2-1 */
-     addin((long)-lngi,(short)(n+i*3),--k,-1,2,state);
-     addin((long)-lngi,(short)(n+i*5),k,0,0,state);
-     addin((long)-lngi,(short)(n+i),(short)(k+2),0,0,state);
-    }
-    else {
-     if (*(state->sign)==2) i= -1;
-     addin((long)-lngi,(short)(n-i*5),--k,-1,2,state);
-     addin((long)-lngi,(short)(n-i*3),k,-3,2,state);
-     addin((long)-lngi,(short)(n-i*3),(short)(k+4),0,0,state);
-    }
-   }
-   else if (g== -3){ /* 3 link */
-    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    i= 8- j/2;
-    if (i==0){
-      addin((long)-lngi,(short)(n-2),k,-1,-2,state);
-      addin((long)(-2*lngi),n,k,-1,-2,state);
-      addin((long)-lngi,(short)(n+2),k,-1,-2,state);
-      addin(lngi,n,(short)(k+2),0,0,state);
-    }
-    else {
-     j= k-2;
-     addin(lngi,(short)(n-2+i),j,0,0,state);
-     addin((long)(2*lngi),(short)(n+i),j,-1,2,state);
-     addin(lngi,(short)(n+2+i),j,0,0,state);
-     addin(lngi,(short)(n+i/2),(short)(k+2),-2,-2,state);
-    }
-   }
-   else { /* circle + circle  and  circle + circle */
-    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    i= 8- j/2;
-    if (i==0){
-      addin(lngi,(short)(n-3),--k,-1,-2,state);
-      addin((long)(3*lngi),(short)(n-1),k,-1,-2,state);
-      addin((long)(3*lngi),(short)(n+1),k,-1,-2,state);
-      addin(lngi,(short)(n+3),k,-1,-2,state);
-     k+=2;
-     addin((long)-lngi,(short)(n-1),k,0,0,state);
-     addin((long)-lngi,(short)(n+1),k,0,0,state);
-    }
-    else {
-     k-=3;
-     addin((long)-lngi,(short)(n-3+i),k,0,0,state);
-     addin((long)(-3*lngi),(short)(n-1+i),k,0,0,state);
-     addin((long)(-3*lngi),(short)(n+1+i),k,0,0,state);
-     addin((long)-lngi,(short)(n+3+i),k,0,0,state);
-     k+=2;
-     addin((long)(2*lngi),(short)(n-2+(i*3)/4),k,0,0,state);
-     addin((long)(4*lngi),(short)(n+(i*3)/4),k,0,0,state);
-     addin((long)(2*lngi),(short)(n+2+(i*3)/4),k,0,0,state);
-     k+=2;
-     addin((long)-lngi,(short)(n-1+i/2),k,0,0,state);
-     addin((long)-lngi,(short)(n+1+i/2),k,0,0,state);
-    }
-   }
-  }
-  else if ((state->numcrs)==3){
-    addin((long)-lngi,(short)(n-i*4),k,0,0,state);
-    addin(lngi,(short)(n-i*2),(short)(k+2),-2,-2,state);
-  }
-  else if ((state->numcrs)!=0){
-    addin(lngi,(short)(n-i),--k,-1,2,state);
-    addin(lngi,(short)(n-i*3),k,0,0,state);
-  }
-  else addin(lngi,n,k,0,0,state);
-  if ((state->notbeg)!=0){
-   (state->numcrs)= (state->buf)[(state->notbeg)-1];
-   (state->numlps)= (state->buf)[(state->notbeg)-4];
-   (state->poslnk)= (state->buf)[(state->notbeg)-5];
-   (state->neglnk)= (state->buf)[(state->notbeg)-6];
-   xpow= (state->buf)[(state->notbeg)-3];
-   ypow= (state->buf)[(state->notbeg)-2];
-   if ((state->buf)[(state->notbeg)-7]!=0) ypow= -ypow;
-   if ((state->buf)[(state->notbeg)-8]!=0) xpow|= 512;
-   (state->notbeg)-= 8+ (state->numcrs)*8;
-   i=0;
-   p= *(state->crsbuf);
-   c= (state->buf)+(state->notbeg);
-   while (i!=(state->numcrs)){
-    j=4;
-    while (j--!=0){
-     *(p++)= *(c++);
-     *(p++)= *(c++)&6;
-    }
-    (state->sign)[i++]= (*(c-7))>>4;
-   }
-   if ((state->numcrs)>chksiz){
-    lp1= *(state->poly);
-    sp= *(state->bilion);
-    lngi= XCNT*XCNT;
-    while (lngi--!=0){
-     if (*lp1> cmpval){
-      if ((*sp)++ == MAXBIL) (state->count)[1]=1;
-      *lp1-= cmpval;
-     }
-     else if (*lp1< -cmpval){
-      if ((*sp)-- == -MAXBIL -1) (state->count)[1]=1;
-      *lp1+= cmpval;
-     }
-     ++lp1;
-     ++sp;
-    }
-    /* if (stats>0){ */
-/*      lseek (stats,(long)(strlen(nbuf)+1),0); */
-/*      lngi=0; */
-/*      i= XCNT-1; */
-/*      while (count[i]==0) --i; */
-/*      while (i!=0){ */
-/*       write (stats,t,ntc((long)(i+1),t),state); */
-/*       write (stats,"     ",5); */
-/*       write (stats,t,ntc(count[i],t)+1,state); */
-/*       lngi+= count[i--]; */
-/*      } */
-/*      write (stats,"\ntotal: ",8); */
-/*      write (stats,t,ntc(lngi,t,state)+1); */
-/*      write (stats,"\nbiggest stacked knots:\n",24); */
-/*      i=12; */
-/*      sp= (state->bstlst); */
-/*      while (i--!=0) sp[i]=0; */
-/*      lngi=notbeg-1; */
-/*      while (lngi>0){ */
-/*       k= (state->buf)[lngi]; */
-/*       sp[++i]= k; */
-/*       lngi-= k*8 + 8; */
-/*       if (i==10) i= -1; */
-/*      } */
-/*      k= 0; */
-/*      while (*sp!=0){ */
-/*       j= ntc((long) *(sp++),t,state); */
-/*       k+=j+1; */
-/*       write (stats,t,j); */
-/*       write (stats," ",1); */
-/*      } */
-/*      write (stats,"                                            ",44-k); */
-/*      write (stats,"\n",1); */
-/*     } */
-   }
-  }
-  else (state->numcrs)=0;
- }
- else {
-/* locate fake bigons, 0 branch bigons, and 3 cross circuits for (state->bstlst) */
-  k= (state->numcrs);
-  p= (state->crsbuf)[k]; /* only set k, other crossings will be set in their loops   */
-  c= (state->sign)+k;    /* If a tangle is added to the knot with twists, I can find */
-  while (k--!=0){ /* it sometimes and remove the twists! */
-   n= (state->bstlst)[k];
-   p-=8;
-   j= *--c;
-   i= *p;
-   g= p[4];
-   if (g==p[j]){   /* good fake bigon behind me */
-    if (p[5]!=j){
-     c= (state->crsbuf)[g];  /* wrong! twisted tangle ahead! remove twists! */
-     mrecon (p+(j^4),c+ (p[j+1]^4),state);
-     mrecon (p,c+ (p[5]^4),state);
-     sqush2 (k,g,state);
-     goto STEP1;
-    }
-    if (n>0) n= -4-n;
-    else n+= -8;
-   }
-   if (p[j]==(state->crsbuf)[g][(state->sign)[g]^j^4] && (p[5]&2)!=0 && nopro!=(state->numcrs)){
-    if ((p[j+1]&2)!=0){
-     if (n<0) n-=12;
-     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
-    }
-    else { /* 0 branch has fake bigon */
-     g=1;
-     if (p[5]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
-     if (n<0) n-=g;
-     else if (n>0) n+=g;
-    }
-   }
-   j^=4;
-   if (p[j]==i){  /* good fake bigon ahead of me */
-    if (p[1]!=j){
-     q= (state->crsbuf)[i];  /* wrong! twisted tangle behind! remove twists! */
-     mrecon (p+4,q+ (p[1]^4),state);
-     mrecon (p+ *c,q+ (p[j+1]^4),state);
-     sqush2 (k,i,state);
-     goto STEP1;
-    }
-    if (n>0) n= -4-n;
-    else n+= -8;
-   }
-   else if (p[j^4]==i){  /* bad fake bigon ahead */
-    if (n<0) n-= 8;
-    else if (n<8) n= 8;
-    if ((state->bstlst)[i]<0) (state->bstlst)[i]-=8;     /* mutualize */
-    else if ((state->bstlst)[i]<8) (state->bstlst)[i]=8;
-   }
-   if (p[j]==(state->crsbuf)[i][(state->sign)[i]^j^4] && (p[1]&2)!=0 && nopro!=(state->numcrs)){
-    if ((p[j+1]&2)!=0){
-     if (n<0) n-=12;
-     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
-    }
-    else { /* 0 branch has fake bigon (1 point) */
-     g=1;
-     if (p[1]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
-     if (n<0) n-=g;
-     else if (n>0) n+=g;
-    }
-   }
-   (state->bstlst)[k]=n;
-  }
-  c= (state->stc);
-  i= -8;
-  if (nopro==(state->numcrs)) m=0;
-  while (m>0){
-   m-=3;
-   n= *(c++);
-   g= *(c++);
-   p= (state->crsbuf)[n];  /* busting vertex of 3 cross circuit makes a removeable */
-   sp= (state->bstlst)+n;  /* + or - link on the 0 branch -- free 2 reduction */
-   k= p[*(c++)];
-   j= p[g];
-   if ((p[g|1]&2) != 0) p= (state->crsbuf)[j];
-   else p= (state->crsbuf)[j]+(state->sign)[j];
-   if (*p==k) --i;
-   if (*sp<0) *sp+= i-4;
-   else if (*sp==0) *sp= 4-i;
-   else *sp= i- *sp;
-  }
-  i= nopro= (state->numcrs);
-  k=n= 0;
-  sp= (state->bstlst)+(state->numcrs);
-  while (i--!=0){
-   if (*--sp<n){
-    n= *sp;
-    j=i;
-   }
-   else if (*sp>k){
-    k= *sp;
-    m=i;
-   }
-  }
-  if (n==0){
-   if (k==0){
-    j= dspair[2];
-    nopro=0;
-   }
-   else j=m;
-  }
-  else if (n>-14 && k>12) j=m; /* since exponential growth is 1.41^n */
-  ypow += bust(j,xpow,ypow,state);
-  xpow^=512;
-  ++(state->count)[(state->numcrs)-1];
- }
- // This point must be reached fairly often, so we're going to put in the timeout code here.
- end = clock();
- cpu_time_used = ((double)(end - start))/CLOCKS_PER_SEC;
- if (timeout > 0 && cpu_time_used > timeout) {
-   free(outpoly);
-   free(state);
-   return NULL;
- }
- if ((state->numcrs)!=0) goto STEP1;
- goto NEWNOT;
-}
-
-void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state)
-/* short top, vnum, vbrnch;
-   unsigned char *ovundr;
-   int flag; */
-{
- register short i, j, k, h, m, n;
- register unsigned char *s, *c, *p;
- register long *lp1, *lp2;
- short g;
- if ((m=vbrnch) >=0){
-  i= vnum;
-  s= (state->crsbuf)[i];
-  k= s[m];
-  g= s[m|1];
-  if (m!=0) c= s+4;
-  else c= s+((state->sign)[i]^4);
-  p= (state->crsbuf)[k]+g;
-  h= *p= *c;
-  n= p[1]= c[1];
-  p= (state->crsbuf)[h]+n;
-  *p= k;
-  p[1]= g;
-  s[6]= s[4]= s[2]= *s= i;
- }
- else ++(state->numlps);
- s= (state->clist);
- j= -1;
- while (top-1 > (i=k= ++j)){
-  while (++i<top){
-   if (s[i] < s[k]) k=i;
-  }
-  if (k!=j){    /* order crossings in (state->clist) */
-   i= s[j];
-   s[j]= s[k];
-   s[k]=i;
-   m= ovundr[j];
-   ovundr[j]= ovundr[k];
-   ovundr[k]= m;
-  }
- }
-      /* relink */
- m= top;
- while (m--!=0){
-  i= s[m];
-  g= ovundr[m];
-  k= (state->crsbuf)[i][g];
-  j= (state->crsbuf)[i][g|1];
-  h= (state->crsbuf)[k][j]= (state->crsbuf)[i][g|4];
-  n= (state->crsbuf)[k][j|1]= (state->crsbuf)[i][g|5];
-  (state->crsbuf)[h][n]= k;
-  (state->crsbuf)[h][n|1]= j;
- }
- if (flag!=0) return;
-      /* squish crossings out of the list */
- i= *s;
- lp1= (long *) (state->crsbuf)[i];
- lp2=lp1+(state->suplng);
- p= (state->sign)+i;
- c=p+1;
- j= 0;
- k=1;
- while (++i!=(state->numcrs)){
-  if (s[k]== i){
-   lp2+= (state->suplng);
-   ++c;
-   if (++k==top) k=0;
-  }
-  else {
-   *(lp1++)= *(lp2++);
-   if ((state->suplng)==2) *(lp1++)= *(lp2++);
-   *(p++)= *(c++);
-  }
- }
-     /* renumber branch pointers (subtract 1 if the crossing was after) */
- (state->numcrs)-= top;
- k= (state->numcrs);
- c= (state->crsbuf)[k];
- while (k--!=0){
-  j=5;
-  while (--j!=0){
-   c-=2;
-   i=top;
-   s= (state->clist)+i;
-   while (i--!=0){
-    if (*c> *--s) --*c;
-   }
-  }
- }
- return;
-}
-
-int ntc(long i,char *buf,lmpoly_state_t *state)
-{
- long j;
- int r;
- char *p;
- p=buf;
- r=0;
- if (i<0){
-  i= -i;
-  r=1;
-  *(p++)= '-';
- }
- if (i>999999999) j=1000000000;
- else if (i>99999999) j=100000000;
- else if (i>9999999) j=10000000;
- else if (i>999999) j=1000000;
- else if (i>99999) j=100000;
- else if (i>9999) j=10000;
- else if (i>999) j=1000;
- else if (i>99) j=100;
- else if (i>9) j=10;
- else j=1;
- while (j!=0){
-  ++r;
-  *(p++)= (i/j)%10+0x30;
-  j/=10;
- }
- *p='\n';
- return (r);
-}
-
-void delpow(lmpoly_state_t *state)
-{
- register long *lp1, *lp2, *lsp, *osp;
- register short i, j, k, m, s, mpos;
- short numlnk, mpow, u, v, x, y, z, order[2], prslen[2], pstlen[2];
- lp1=(state->b);
- if ((state->numlps)<4){
-  if ((state->numlps)==1){
-   *(lp1++)= -1;
-   *lp1= -1;
-  }
-  else if ((state->numlps)==3){
-   *(lp1++)= -1;
-   *(lp1++)= -3;
-   *(lp1++)= -3;
-   *lp1= -1;
-  }
-  else {
-   *(lp1++)= 1;
-   *(lp1++)= 2;
-   *lp1= 1;
-  }
- }
- else {
-  *lp1= 1;
-  (state->b)[1]= 4;
-  (state->b)[2]= 6;
-  k= (state->b)[3]= 4;
-  (state->b)[4]= 1;
-  while (k++!=(state->numlps)){
-   j=k;
-   (state->b)[j]=1;
-   while (--j!=0) (state->b)[j]+= (state->b)[j-1];
-  }
-  if (((state->numlps)&1)!=0) while (--k>=0) (state->b)[k]= -(state->b)[k];
- }
- *prslen= *pstlen= prslen[1]= pstlen[1]= mpos= mpow= 0;
- osp= (state->b)+ (state->numlps)+1;
- if ((state->poslnk)>(state->neglnk)){
-  order[1]= (state->poslnk);
-  *order= (state->neglnk);
- }
- else {
-  order[1]= (state->neglnk);
-  *order= (state->poslnk);
-  mpos=2;
- }
- z=2;
- while (z--!=0){
-  numlnk=order[z];
-  mpos^=2;
-  while (numlnk--!=0){
-   m= ++mpow;
-   s=j=k= (state->numlps)+1;
-   u= *pstlen;
-   v= pstlen[1];
-   ++prslen[z];
-   *pstlen= x= *prslen;
-   pstlen[1]= y= prslen[1];
-   lp2= osp;
-   lp1= lp2+ j+ m;
-   if (z==0) lp1+= order[1];
-   osp= lp1;
-   while (j--!=0) *--lp1=0;
-   while (m--!=0){
-    i=j= s;
-    lsp= lp1;
-    if (mpos== (z|2) && y>0) *--lsp=0;
-    if (mpos!=0) lp1+=k;
-    else lp1+=i;
-    while (j--!=0) *--lp1-= *--lp2;
-    lp2+=i;
-    lp1= lsp;
-    *--lp1=0;
-    while (i--!=0) *--lp1= *--lp2;
-    lp1= lsp;
-    lsp= lp2;
-    lp2= lp1-1;
-    j=s;
-    while (j--!=0) *--lp1+= *--lp2;
-    --lp1;
-    if (x-->0) ++k;
-    if (y-->0){
-     ++k;
-     if (mpos==z) *--lp1=0;
-    }
-    if (u-->0) ++s;
-    if (v-->0) ++s;
-    lp2=lsp;
-   }
-  }
- }
-}
-
-void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state)
-/*short ypow, xpow;
-long kcoeff;
-int mult, reach;*/
-{
-  register long *lp1, *lp2 = NULL, addon, *p; // Added init for lp2, JC.
-  register short i, j, k, numlnk, loops;
-  i= (state->poslnk);
-  k= (state->neglnk);
-  numlnk= i+k;
-  loops= (state->numlps)+ numlnk;
-  ypow+= XCNT-xpow-1+(state->lowx)+ 2*(k-i);
-  xpow-=(state->lowx)+loops;
-  p=(state->b);
-  while (numlnk-->=0){
-    if (reach!=0) lp2= (state->poly)[xpow+reach]+ypow-reach;
-    lp1= (state->poly)[xpow]+ ypow;
-    j= loops;
-    while (j-->=0){
-      addon= kcoeff* *(p++);
-      *lp1+= addon;
-      lp1+=2;
-      if (reach!=0){
-	*lp2+= mult*addon;
-	lp2+=2;
-      }
-    }
-    if (--i<0) --loops;
-    if (--k<0) --loops;
-    else ypow-=2;
-    xpow+=2;
-  }
-}
-
-void untwst(short l,short n,short i,short ex,lmpoly_state_t *state)
-/* short l, n, i, ex; */
-{
- register unsigned char *pl, *pn;
- register short g, h, m, k, d, e;
- short j;
- j= (state->sign)[i]; /* flip 3 crossing circuits */
- k= j^ex;
- ex^=4;
- m= j^ex;
- if ((state->sign)[l]-ex==2){
-  g= j^2;
-  h= g^4;
-  j= 6;
- }
- else {
-  h= j^2;
-  g= h^4;
-  j= 2;
- }
- pl= (state->crsbuf)[l];
- pn= (state->crsbuf)[n];
- d= pl[m];
- e= pl[m|1];
- pl[m]= pn[g];
- pl[m|1]= pn[g|1];
- if (d!=n){
-  pn[g]= d;
-  pn[g|1]= e;
- }
- else {
-  pn[g]= l;
-  pn[g|1]= k;
- }
- (state->crsbuf)[pl[m]][pl[m|1]]= l;
- (state->crsbuf)[pl[m]][pl[m|1]|1]= m;
- d= pn[h];
- e= pn[h|1];
- pn[h]= pl[k];
- pn[h|1]= m= pl[k|1];
- if (d!=l){
-  pl[k]= d;
-  pl[k|1]= e;
- }
- else {
-  pl[k]= n;
-  pl[k|1]= g;
- }
- (state->crsbuf)[pn[h]][m]= n;
- (state->crsbuf)[pn[h]][m|1]= h;
- h= pn[g|1];
- (state->crsbuf)[pn[g]][h]= n;
- (state->crsbuf)[pn[g]][h|1]= g;
- d= pl[k];
- e= pl[k|1];
- (state->crsbuf)[d][e]= l;
- (state->crsbuf)[d][e|1]= k;
- pl[ex]= g= (state->crsbuf)[i][ex];
- pl[ex|1]= h= (state->crsbuf)[i][ex|1];
- (state->crsbuf)[g][h]= l;
- (state->crsbuf)[g][h|1]= ex;
- pn[j]= g= (state->crsbuf)[i][k];
- pn[j|1]= h= (state->crsbuf)[i][k|1];
- (state->crsbuf)[g][h]= n;
- (state->crsbuf)[g][h|1]= j;
-}
-
-int conchk(lmpoly_state_t *state)
-{
- register short i, j;
- int vnum, vbrnch, top;
- char str[20], local_cbuf[XCNT*2];
- vnum=vbrnch= 0;
- (state->lowx)= 1;
- i=top= (state->numcrs)*2;
- while (i>=0) local_cbuf[i--]=0;
- i=0;
- while (i!=top){
-  --(state->lowx);
-  while (local_cbuf[i]==0){
-   local_cbuf[i]=1;
-   i=vnum;
-   j=vbrnch;
-   vnum= (state->crsbuf)[i][j];
-   vbrnch= (state->crsbuf)[i][j|1];
-   if (vnum>=(state->numcrs)){
-    write (1,"error at crossing #",19);
-    write (1,str,ntc((long)(i+1),str,state));
-    write (1,", knot can't have a crossing #",30);
-    write (1,str,ntc((long)(vnum+1),str,state)+1);
-    return (1);
-   }
-   if ((state->crsbuf)[vnum][vbrnch]!=i || ((state->crsbuf)[vnum][vbrnch|1])!=j){
-    write (1,"the possible connection from branch ",36);
-    write (1,str,ntc((long)(i+1),str,state));
-    *str= 'a'+(j>>1);
-    write (1,str,1);
-    write (1," to branch ",11);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    *str= 'a'+(vbrnch>>1);
-    write (1,str,1);
-    write (1," is inconsistent\n",17);
-    return (1);
-   }
-   if (vbrnch==0){
-    write (1,"a-c part of crossing #",22);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    write (1," is oriented backwards\n",23);
-    write (1,"with respect to crossing #",26);
-    write (1,str,ntc((long)(i+1),str,state)+1);
-    return (1);
-   }
-   else if (vbrnch== ((state->sign)[vnum] & 6)){
-    write (1,"b-d part of crossing #",22);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    write (1," is oriented backwards\n",23);
-    write (1,"with respect to crossing #",26);
-    write (1,str,ntc((long)(i+1),str,state)+1);
-    return (1);
-   }
-   i= (vnum<<1) + ((vbrnch>>1)&1);
-   vbrnch^=4;
-  }
-  i=0;
-  while (local_cbuf[i]!=0) ++i;
-  vnum= i/2;
-  if ((i&1)!=0) vbrnch= (state->sign)[vnum] & 6;
-  else vbrnch=0;
- }
- return(0);
-}
-
-void mypause(int sig)
-{
-  //(state->restrt)=1;
- //signal(SIGTERM,pause);  /* pause is now a system function */
- signal(sig,mypause);
-}
-
-int bust(short tobust,short xpow,short ypow,lmpoly_state_t *state)
-/* short tobust, xpow, ypow; */
-{
- register unsigned char *fastp, *c;
- register long *lp1, *lp2;
- register short i, j, m, k, l, n, *sp;
- unsigned char *inbuf[XCNT], tsign[XCNT], *bstcrs;
- int dir;
- //long lngi;
- bstcrs= (state->crsbuf)[tobust];
- fastp=(state->sign);
- c=tsign;
- lp2= (long *) *(state->crsbuf);
- lp1= (long *) ((state->buf)+(state->notbeg));
- j=0;
- while (j!=(state->numcrs)){
-  if (j==tobust) ++fastp;
-  *(c++)= *(fastp++);
-  inbuf[j++]= (unsigned char *) lp1;
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
- }
- fastp= bstcrs;
- l= (state->sign)[tobust]/2;
- dir= 2-l;
- m= fastp[7-l];
- n= fastp[8-l];
- j= fastp[3*l-3];
- k= fastp[3*l-2];
- inbuf[j][k]= m;
- inbuf[j][k|1]= n;
- inbuf[m][n]= j;
- inbuf[m][n|1]= k;
- m= fastp[5-l];
- n= fastp[6-l];
- j= fastp[3-l];
- k= fastp[4-l];
- inbuf[j][k]= m;
- inbuf[j][k|1]= n;
- inbuf[m][n]= j;
- inbuf[m][n|1]= k;
- k= (state->numcrs)-1;
-     /* squish crossing out of the list (tsign has already been squished) */
- i= k-tobust;
- lp1= (long *) inbuf[tobust];
- lp2=lp1+(state->suplng);
- while (i--!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
- }
-     /* renumber branch pointers (subtract 1 if the crossing was after) */
- (state->notbeg)+= (state->numcrs)*8;
- fastp= *inbuf;
- while (++i!=k){
-  fastp[1]|= tsign[i]<<4;
-  j=5;
-  while (--j!=0){
-   if (*fastp>=tobust) --*fastp;
-   fastp+=2;
-  }
- }
- fastp= (state->buf)+(state->notbeg)-7;
- *fastp= *(fastp-1)=0;
- if (ypow+dir<0){
-  *fastp=1;
-  (state->buf)[(state->notbeg)-2]= -ypow-dir;
- }
- else (state->buf)[(state->notbeg)-2]= ypow+dir;
- if ((xpow&512) ==0) (state->buf)[(state->notbeg)-8]=1;
- *++fastp= (state->neglnk);
- *++fastp= (state->poslnk);
- *++fastp= (state->numlps);
- *++fastp= xpow+1;
- (state->buf)[(state->notbeg)-1]= i;
- fastp= bstcrs;
- sp= (short *) fastp;
- j= *sp;
- *sp= sp[l];
- sp[l]= sp[2];
- sp[2]= sp[l^2];
- sp[l^2]= j;
- (state->sign)[tobust]^=4;
- (state->crsbuf)[*fastp][fastp[1]|1]=0;
- (state->crsbuf)[fastp[2]][fastp[3]|1]=2;
- (state->crsbuf)[fastp[4]][fastp[5]|1]=4;
- (state->crsbuf)[fastp[6]][fastp[7]|1]=6;
- return (dir*2);
-}
-
-void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state)
-/*unsigned char *c, *p;*/
-{
- register short j, k, m, n;
- register unsigned char *ccb;
- k= *c;
- j= c[1];
- ccb= (state->crsbuf)[k]+j;
- n= *ccb= *p;
- m= ccb[1]= p[1];
- ccb= (state->crsbuf)[n]+m;
- *ccb= k;
- ccb[1]= j;
-}
-
-void squish(short sqush,lmpoly_state_t *state)
-/* short sqush; */
-{
- register short i, j, tosqsh;
- register unsigned char *p, *c;
- register long *lp1, *lp2;
-       /* squish crossing out of the list */
- tosqsh= sqush;
- j= --(state->numcrs)-tosqsh;
- lp1= (long *) (state->crsbuf)[tosqsh];
- lp2=lp1+(state->suplng);
- p= (state->sign)+tosqsh;
- c=p+1;
- while (j--!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
-    /* renumber branch pointers (subtract 1 if the crossing was after) */
- i= (state->numcrs);
- p= (state->crsbuf)[i];
- while (i--!=0){
-  j=5;
-  while (--j!=0){
-   p-=2;
-   if (*p>=tosqsh) --*p;
-  }
- }
-}
-
-void sqush2(short n,short g,lmpoly_state_t *state)
-/* short n, g; */
-{
- long *lp1, *lp2;
- register unsigned char *p, *c;
- register short m, i, j;
-     /* squish crossings out of the list */
- i= n;
- m= g;
- if (m>i){
-  j=m;
-  m=i;
-  i=j;
- }
- lp1= (long *) (state->crsbuf)[m];
- lp2=lp1+(state->suplng);
- p=(state->sign)+m;
- c=p+1;
- j= i-m;
- while (--j!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
- lp2+=(state->suplng);
- ++c;
- j= (state->numcrs)-i;
- (state->numcrs)-=2;
- while (--j!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
-    /* renumber branch pointers (subtract 1 if the crossing was after) */
- p= (state->crsbuf)[(state->numcrs)];
- n= (state->numcrs);
- while (n--!=0){
-  j=5;
-  while (--j!=0){
-   p-=2;
-   if (*p>=i) --*p;
-   if (*p>=m) --*p;
-  }
- }
-}
-
-void triple(short m,short i,unsigned char *p,lmpoly_state_t *state)
-/*short m, i;
-  unsigned char *p; */
-{
- register unsigned char *crsi, *crsk;
- register short j, d, e, n, h, k;
- crsi= p;
- n= m^4;
- k= crsi[m];
- crsk= (state->crsbuf)[k];
- j= crsi[m|1];
- d= crsk[j]= crsi[n];
- e= crsk[j|1]= crsi[n|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- d= crsi[m]= crsk[j];
- e= crsi[m|1]= crsk[j|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= m;
- crsi[n]= k;
- crsi[n|1]= j;
- crsk[j]= i;
- crsk[j|1]= n;
- j^=2;
- n= crsk[j];
- h= crsk[j|1]^4;
- d= crsk[j]= (state->crsbuf)[n][h];
- e= crsk[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- n= crsk[j];
- h= crsk[j|1]^4;
- d= crsk[j]= (state->crsbuf)[n][h];
- e= crsk[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j=m^2;
- n= crsi[j];
- h= crsi[j|1]^4;
- d= crsi[j]= (state->crsbuf)[n][h];
- e= crsi[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- m= crsi[j];
- h= crsi[j|1]^4;
- d= crsi[j]= (state->crsbuf)[m][h];
- e= crsi[j|1]= (state->crsbuf)[m][h|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= j;
- sqush2(n,m,state);
-}
-
-int tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state)
-/* short h, *bstlst, *dspair, *skflag; */
-{
- register short d, g, i, j, m, length, *q, *sp;
- register unsigned char *p, *tp = NULL, *vp; // Added init for tp. JC
- short k = 0, n, lngsum, badcrs = 0, vertex, lngpos = 0, i1, i2, i3, j1, j2, j3;
- sp=q= (state->tt);  /* # of overs and unders were passed in through *(state->tt) and [2] */
- lngsum= n= 0;
- if (*(state->tt) > (state->tt)[2]) n=2;
- else if (*(state->tt) == (state->tt)[2]) lngsum=1;   /* need to test BOTH overs & unders */
- vp= (state->clist);
- vertex=h;
- while (vertex-->0) *(sp++)= *(vp++);   /* make a working copy of (state->clist) */
- i= h-1;
- if ((h&1)!=(length=0)) vertex= (state->clist)[i];
- else {
-  if ((state->donlnk)[XCNT]==0){   /* if my check-off list is now invalid */
-   d= (state->numcrs);             /* re-set it all to 0 */
-   while (d-->0) (state->donlnk)[d]= 0;
-   (state->donlnk)[XCNT]=1;
-  }
-  if (((state->donlnk)[(state->clist)[i]]&((state->t)[i]+2))!=0) return(0);
- }
- m=j= h/2;
- *sp= -1;
- p=state->t;
- while (j-->length){
-  i=2;
-  while (*q==1024){
-   ++q;
-   ++p;
-  }
-  d= *q;
-  if (*(p++)==0) i+= (state->sign)[d];
-  g= (state->crsbuf)[d][i&6];
-  sp= ++q;
-  while (*sp>=0 && *sp!=g) ++sp;
-  if (*sp<0) j= -10;
-  else if (*sp==vertex) length= -1;
-  else *sp= 1024;
- }
- if (j== -11){
-  d=h;
-  sp=q= (state->tt);
-  vp= (state->clist);
-  while (d-->0) *(sp++)= *(vp++);
-  length=0;
-  p=state->t;
-  while (m-->length){
-   i=6;
-   while (*q==1024){
-    ++q;
-    ++p;
-   }
-   d= *q;
-   if (*(p++)==0) i+= (state->sign)[d];
-   g= (state->crsbuf)[d][i&6];
-   sp= ++q;
-   while (*sp>=0 && *sp!=g) ++sp;
-   if (*sp<0) m= -10;
-   else if (*sp==vertex) length= -1;
-   else *sp= 1024;
-  }
-  j-=m;
- }
- if (vertex< (length=lngsum=d=m= 0)){  /* if a link */
-  tp=p= state->t;
-  while ((n^*(p++))==0) ++d;  /* find first bad crossing and move it to the */
-  vp= (state->clist)+d;                /* front so that (state->clist) cannot break a string */
-  --p;                        /* of good crossings in a link from */
-  sp= (state->tt);                     /* (state->clist)[h-1] to (state->clist)[0] */
-  i=m= h-d;
-  while (m-->0){
-   (state->donlnk)[*vp]|= *(p++)+2;  /* also check off all list elements to assure */
-   *(sp++)= *(vp++);        /* this link never comes to tstcir again with */
-  }                         /* a different beginning crossing */
-  m=d;
-  vp= (state->clist);
-  while (m-->0){
-   (state->donlnk)[*vp]|= *tp+2;
-   *(sp++)= *vp;
-   *(vp++)= *(tp++);
-  }
-  p=state->t;
-  while (i-->0) *(p++)= *(tp++);
-  vp= (state->clist);
-  while (d-->0) *(p++)= *(vp++);
-  d=m= 0;
- }
- else {
-  sp= (state->tt);
-  vp= (state->clist);
-  i= h;
-  while (i-->0) *(sp++)= *(vp++);
- }
- p=state->t;
- g= h|1;         /* find the longest good string & put in "length" */
- (state->t)[g]= (state->t)[g-1];   /* also, the longest with only 1 bad crossing in "lngsum" */
- (state->t)[g-1]= n^2;    /* badcrs is the bad crossing in lngsum */
- while (++i<g){
-  if ((n^*(p++)) ==0) ++d;
-  else {
-   if (d>=length){
-    length=d;
-    k= i-d;
-   }
-   if (m+d>=lngsum){
-    lngsum= m+d+1;
-    if (d==0) tp= p-3;  /* tp points to a generic good crossing in lngsum */
-    else tp= p-2;
-    if (d!= (lngpos=i)) badcrs= (state->tt)[i-d-1];
-    else badcrs= (state->tt)[i];
-   }
-   m=d;
-   d=0;
-  }
- }
- i= h/2;
- if (vertex>=0 && length>=i){ /* can this circuit untwist its vertex? */
-   if (k==0 && (*(state->t)^*p)!=0) return (skinny(1,h,(short) 0,state));
-   else if (k+length+1==h && ((state->t)[k]^*p)==0) return (skinny(1,h,i,state));
- }
- if (j==0 && length>=i){     /* circuit is not skinny, and can be skinnied */
-  if (vertex>= (i1=0) && length==i){
-   m= k+i;
-   *(p-1)= *p;     /* infinite loops happen when the loose strand is shared */
-   d= (state->tt)[m-1];        /* between 2 intersecting circuits -- skflag prevents */
-   while (m>=k){           /* looping, allows me to skinny once per bust!   */
-    vp= (state->crsbuf)[(state->tt)[m]];
-    if ((state->t)[m]!=0) j=2;
-    if (vp[j]==d || vp[j^4]==d) m=i1= -1;  /* possible inf. loop circuit! */
-    else j=0;
-    m-=i;
-    if (k==0) d= (state->tt)[h-1];
-    else d=(state->tt)[k-1];
-   }
-  }
-  if (i1== (j=0)) return (skinny(0,h,k,state)); /* OK to skinny it! */
-  if (*skflag==0){
-   *skflag=1;
-   return (skinny(0,h,k,state)); /* OK to do ONE skinny */
-  }
- }
- if (lngsum>=i){
-  if (lngsum == h-2) lngsum=h;   /* a link w/only 2 crossings vanishes! */
-  d= (lngsum-i)*8;  /* and find all the extra benefits of badcrs */
-  if (j==0) ++d;    /* give one point for doing a skinny */
-  if (vertex>=0){
-   if (lngpos==lngsum && (*tp^*p)!=0) d+=4;
-   else if (lngpos+1==h && (*tp^*p)==0) d+=4;
-   else if (lngsum+1==h) d+=4;
-  }
-  if (d==8 && length==lngsum-1) d=0; /* this is really just a fake bigon */
-  if (j==0 && d!=0 && (state->numcrs)+ 2*(i-lngsum)>11) d+=2;
-  if ((k=lngpos-lngsum)!= (m=0) && d!=0){
-   if ((state->t)[k]!=0) m= (state->sign)[(state->tt)[k]];
-   if ((state->crsbuf)[(state->tt)[k]][m] == (state->tt)[k-1]) ++d;
-   if (k!=1 && ((state->t)[k-2]^(state->t)[k-1])!=0) ++d;
-  }
-  if (lngpos+1 != g && d!=0){
-   if ((state->t)[lngpos]!= (m=0)) m= (state->sign)[(state->tt)[lngpos]];
-   if ((state->crsbuf)[(state->tt)[lngpos]][m] == (state->tt)[lngpos-1]) ++d;
-   if (lngpos+2 !=g && ((state->t)[lngpos+1]^(state->t)[lngpos])!=0) ++d;
-  }
-  if (d<6 && j==0){    /* min. one point for making skinny circuits */
-   if (bstlst[badcrs]==0) bstlst[badcrs]= *dspair= 1;
-  }
-  else {
-   *dspair=1;
-   (state->donlnk)[badcrs]=0;  /* from badcrs's perspective, link may be better */
-   if (bstlst[badcrs]<0){
-    if (bstlst[badcrs]> -8-d) bstlst[badcrs]= -8-d;
-   }
-   else if (bstlst[badcrs]<d) bstlst[badcrs]=d;
-  }
- }
- else {
-  k= h/4;
-  if (*dspair<k) k= *dspair;
-  m=1;
-  while (m++<k){
-   tp=state->t;
-   *(state->gapsto)=j= 0;
-   d= m+1;
-   while (--d>0){
-    while ((*(tp++)^n) ==0) ++j;
-    (state->gapsto)[d]= j++;
-   }
-   while (j<g){
-    while ((*(tp++)^n) ==0) ++j;
-    length= (j-(state->gapsto)[d]-i)*4 +2;
-    if (length>0 && (m<*dspair || (m== *dspair && length>=dspair[1]))){
-     if (m<*dspair || length>dspair[1]) dspair[3]=0;
-     *dspair=m;
-     dspair[1]= length;
-     length=lngpos= 0;
-     if (d!=m) lngpos= d+1;
-     j1= j;
-     j2= (state->gapsto)[lngpos];
-     h=m;
-     while (h-->0){
-      if (++lngpos>m) lngpos=0;
-      vertex= (state->tt)[j2];
-      j3= (state->gapsto)[lngpos];
-      lngsum= j1-j3;
-      p= (state->crsbuf)[vertex];
-      i1= (state->sign)[vertex];
-      i2= p[i1];
-      i3= p[i1|1];
-      i1^=4;
-      if ((state->crsbuf)[i2][(i3+i1)&6]== p[4]){
-	//if ((p[5]^i3&2) !=0) lngsum= -1 -lngsum;
-	/* According to wikipedia, the & should come first, so this is */
-	if ((p[5]^(i3&2)) !=0) lngsum= -1 -lngsum;
-       else lngsum= -10 -lngsum;
-      }
-      i2= p[i1];
-      i3= p[i1|1];
-      if ((state->crsbuf)[i2][(i3+i1)&6]== *p){
-	if ((p[1]^(i3&2)) !=0){  // The same is true here
-        if (lngsum<0) lngsum-=5;
-        else lngsum= -1 -lngsum;
-       }
-       else if (lngsum<0) lngsum-= 10;
-       else lngsum= -10 -lngsum;
-      }
-      if (lngsum<0){
-       if (length>lngsum){
-        length= lngsum;
-        badcrs= vertex;
-       }
-      }
-      else if (length>=0 && length<lngsum){
-       length= lngsum;
-       badcrs= vertex;
-      }
-      j1=j2;
-      j2=j3;
-     }
-     i1= dspair[3];
-     if (length<0){
-      if (i1>length){
-       dspair[2]= badcrs;
-       dspair[3]= length;
-      }
-     }
-     else if (i1>=0 && i1<length){
-      dspair[2]= badcrs;
-      dspair[3]= length;
-     }
-     k=0;
-    }
-    (state->gapsto)[d--]= j++;
-    if (d<0) d=m;
-   }
-  }
- }
- return(0);
-}
-
-int skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state)
-/* short lencir, lngpos;
-   int twist; */
-{
- register short a, b, g, n, vnum, dir, *c;
- register unsigned char *p, *q, *cp;
- short i, j, k, m, last, f, v2; //*sp;
- vnum= -1;     /* assume circuit is a link */
- dir= 6;       /* and I will be placing loose strand LEFT of fixed strand */
- if ((lencir&1)!= (b=0)){
-  vnum= (state->tt)[lencir-1];                /* if not a link */
-  if (((state->t)[lencir-1]=(state->t)[lencir]) ==0) b= (state->sign)[vnum];
-    /* tstcir wrecks (state->t)[lencir-1] on non-links but saves a copy! */
- }
- if (vnum>=0){
-  g=vnum;      /* SET DIR PROPERLY!! */
-  while (b>=0){        /* if VERTEX is left of fixed strand, set dir RIGHT */
-   p=(state->crsbuf)[g]+b;  /* there is also a special case if I am untwisting */
-   g= *p;
-   b= *(p+1)^4;  /* walk out from the vertex -- do I run into the circuit? */
-   a=lencir;
-   c= (state->tt);
-   while (a>0 && *(c++)!=g) --a;
-   if (a>0){
-    if (*--c!=vnum){
-     if (b==0) dir= (state->sign)[*c]^4;     /* yes */
-     else dir=b;
-    }
-    else {
-     g= *(state->tt);     /* no -- I ran back into the vertex again */
-     b=6;              /* trace the first left region of the circuit */
-     if (*(state->t)==0) b=(state->sign)[g]-2;
-     n= (state->tt)[lencir-2];  /* does it connect to the other side of the circuit? */
-     while (g!=vnum && g!=n){
-      p= (state->crsbuf)[g]+b;
-      g= *p;
-      b= (*(p+1)+2)&6;
-     }
-     if (g==vnum) dir=2;  /* no -- vertex is left of fixed strand */
-    }
-    b= -1;
-   }
-  }
-  if (twist!=0) dir^=4;
- }
- a=j= lencir/2;   /* to move strand, remove it - then reinsert crossings by */
- p= (state->clist);       /* hand.  Put moveable crossings in (state->clist) & call rmcir */
- c= (state->tt)+lngpos;
- while (a-->0) *(p++)= *(c++);
- --(state->numlps);                   /* rmcir adds a (state->numlps) for fun */
- rmcir (j,(short) 0,a,(state->t)+lngpos,1,state);
- i=k= lngpos+j;
- if (vnum>=0){
-  --lencir;
-  if (lngpos==0 && twist==0) twist= -1;
- }
- else if (i==lencir) i=0;
- if (twist> (m=b= 0) && lngpos!=0){
-  if ((state->t)[lencir]==0) b= (state->sign)[vnum];
-  last= (state->crsbuf)[vnum][b];   /* set last properly if I am untwisting vertex */
-  f= (state->crsbuf)[vnum][b|1];
- }
- else {
-  last= (state->tt)[i];  /* set last to automatically hook up one of the bigon ends */
-  f= 4;
-  if ((state->t)[i]==0) f= (state->sign)[last]^4;
- }
- if ((state->t)[--k]==0) m=4;
- while (j-->0){
-  if (i==lencir) i=0;
-  g=dir;
-  vnum= (state->tt)[i];   /* vnum is the crossing on the fixed strand */
-  b= (state->sign)[vnum];
-  if ((state->t)[i++]==0) g+=b;
-  else b^=4;
-  p= (state->crsbuf)[last]+f;  /* reconnect the loose end from the last loop to the */
-  *(p++)= n= (state->tt)[k--];  /* present n */
-  q= (state->crsbuf)[n];   /* n is the crossing on the loose strand - q points to it */
-  (state->sign)[n]= a= b^m;   /* this calculation for (state->sign)[n] is a 2 step trick */
-  if (m==0){
-   a=0;
-   b=dir;
-  }
-  else b^=dir;
-  *p=a;
-  q[a]= last;   /* reconnect last going FOREWARDS along loose strand from n */
-  q[a+1]=f;
-  f= a^4;
-  g&=6;
-  cp= (state->crsbuf)[vnum]+g;
-  v2= *cp;             /* v2 is one step out the dir branch of fixed strand */
-  *(cp++)= last= n;
-  a= *cp;    /* reconnect vnum to n instead (insert n) */
-  *cp=b;
-  p= q+b;
-  *(p++)= vnum;   /* mutual from n to vnum */
-  *p=g;
-  b^=4;
-  p= (state->crsbuf)[v2]+a;  /* insert n from v2 side */
-  *(p++)= n;
-  *p=b;
-  p= q+b;     /* mutual connect from n */
-  *(p++)= v2;
-  *p=a;
- }
- if (twist!=0){       /* reconnect the loose end properly */
-  vnum=(state->tt)[lencir];
-  if ((state->t)[lencir]!= (dir=b=0)) dir=b=(state->sign)[vnum];
-  if (twist>0){
-   p= (state->crsbuf)[vnum];
-   if (lngpos==0){
-    n= p[b^4];
-    b= p[b^5];
-    if ((state->t)[lencir]== (dir=0)) dir=(state->sign)[vnum];
-   }
-   else {
-    n= (state->tt)[--i];
-    if ((state->t)[i]== (b=0)) b=(state->sign)[n];
-   }
-   a= p[dir];
-   g= p[dir|1];
-   k= p[dir^5];
-   dir= p[dir^4];
-   (state->crsbuf)[a][g]= dir;
-   (state->crsbuf)[a][g|1]=k;
-   (state->crsbuf)[dir][k]=a;
-   (state->crsbuf)[dir][k|1]=g;
-  }
-  else twist=0;
- }
- else if ((state->t)[--i]== (b=0)) b= (state->sign)[(state->tt)[i]];
- if (twist==0) n= (state->tt)[i];
- (state->crsbuf)[last][f]= n;
- (state->crsbuf)[last][f|1]= b;
- (state->crsbuf)[n][b]= last;
- (state->crsbuf)[n][b|1]= f;
- if (twist!=0) squish(vnum,state); /* if I untwisted vertex, now eliminate it */
- return(1);
-}
+/*          FAST VERSION       */
+/* A load balanced calculation of the oriented polynomial  Ver 1.1f */
+/* Bruce Ewing and Kenneth C. Millett  (author: Ewing)    Feb 5, 01 */
+/* Department of Mathematics */
+/* University of California */
+/* Santa Barbara, CA 93106 */
+/* there is a hard limit of 255 crossings in this program */
+
+#include <config.h>
+
+#ifdef HAVE_SIGNAL_H
+#include <signal.h>
+#endif
+
+#ifdef HAVE_SYS_TYPES_H
+#include <sys/types.h>
+#endif
+
+#ifdef HAVE_SYS_TIMES_H
+#include <sys/times.h>
+#endif
+
+#include <stdio.h>
+#include <stdlib.h>
+
+#ifdef HAVE_UNISTD_H
+#include <unistd.h>
+#endif
+
+#ifdef HAVE_FCNTL_H
+#include <fcntl.h>
+#endif
+
+#include <string.h>
+#include <time.h>
+#include <assert.h>
+
+  /* values the USER needs to define!! */
+#define XCNT       250     /* maximum crossings in knot (at most 255) */
+#define XCNTSQ   62500     /* YOU MUST CALCULATE XCNT SQUARED! */
+#define XCSQTR  187500     /* YOU MUST CALCULATE XCNTSQ times THREE! */
+
+
+/* system values -- it's best if these are not touched */
+#define EOFCHR       0     /* integer value of my "end of file" character */
+#define MAXBIL   32767     /* positive value where overflow warning triggers */
+
+#define MAXPOLY  12000     /* Maximum # of characters for output poly */
+
+/* globals */
+
+typedef struct state_struct {
+
+  int readpos;
+  int writepos;
+
+  long plybuf[XCNTSQ], *poly[XCNT], notbeg, count[XCNT], b[XCNT+1];
+  unsigned char sign[XCNT], donlnk[XCNT+1], t[XCNT+2], crsbuf[XCNT+1][8];
+  unsigned char buf[XCSQTR], cbuf[10242], clist[XCNT+2], stc[XCNT*2];
+  short numcrs, numlps, poslnk, neglnk, lowx, restrt, gapsto[65];
+  short tt[XCNT+2], bstlst[XCNT], bilbuf[XCNTSQ], *bilion[XCNT], suplng;
+
+} lmpoly_state_t;
+
+/* Prototypes for later functions */
+
+void mypause(int sig);
+int  ntc(long i,char *buf,lmpoly_state_t *state);
+int  conchk(lmpoly_state_t *state);
+void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state);
+void squish(short sqush,lmpoly_state_t *state);
+void sqush2(short n,short g, lmpoly_state_t *state);
+void triple(short m,short i,unsigned char *p,lmpoly_state_t *state);
+void untwst(short l,short n,short i,short ex,lmpoly_state_t *state);
+void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state);
+int  tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state);
+void delpow(lmpoly_state_t *state);
+void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state);
+int  bust(short tobust,short xpow,short ypow,lmpoly_state_t *state);
+int  skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state);
+
+int strread(char *str,void *buffer,size_t size,lmpoly_state_t *state)
+
+/* Reads up to size characters from string, copying the results to buffer. */
+/* We keep a (global) count of our position in the string internally.      */
+/* Return the number of characters read, or 0 at the end of the string.    */
+/* We don't copy the terminating NULL from str. */
+
+{
+  int ctried,cread;
+
+  for(ctried=0,cread=0;ctried < size;ctried++) {
+
+    if (str[(state->readpos)] != 0) {
+
+      ((char *) buffer)[cread++] = str[(state->readpos)++];
+
+    }
+
+  }
+
+  return cread;
+}
+
+int strwrite(char *str,char *buffer,size_t size,lmpoly_state_t *state)
+
+/*   Writes size characters from buffer to str. Returns the number of  */
+/*   characters written. We keep a static counter of where we are in   */
+/*   the string. */
+
+{
+  int ctried,cwrote;
+
+  for(ctried=0,cwrote=0;ctried < size;ctried++) {
+
+    str[(state->writepos)++] = buffer[cwrote++];
+
+    if ((state->writepos) > MAXPOLY-1) {
+
+      printf("lmpoly: Output polynomial larger than %d characters.\n",
+	     MAXPOLY);
+
+      exit(1);
+
+    }
+
+  }
+
+  return cwrote;
+}
+
+
+char *plc_lmpoly(char *code, int timeout)
+/* This version takes a timeout in seconds. Returns NULL pointer if the computation takes too long. */
+{
+ register short i, j, k, h, m, n, *sp;
+ register unsigned char *p, *c;
+ int in = 0, out, stats, len, len2, pause();
+ long lngi, *lp1, *lp2, kstrt, cmpval;
+ short g, xpow, ypow, dspair[4], maxcrs, chksiz, nopro, skflag;
+ unsigned char nbuf[82], *q, *s;
+ //struct tms hi;
+ char *outpoly;
+
+ clock_t start,end;
+ double  cpu_time_used;
+
+ lmpoly_state_t *state = calloc(1,sizeof(lmpoly_state_t));
+ assert(state != NULL);
+
+ start = clock();
+
+ if (code == NULL) { free(state); return NULL; }
+
+ /* It's possible that we'll be fed a code with only one crossing */
+ /* This will crash the rest of the code, so we insert some stuff here */
+ /* to catch this case and return [[0]]N for the unknot. --JHC */
+
+ int newlinecount = 0;
+ char *codeptr;
+ for(codeptr = code;codeptr != NULL;) {
+
+   codeptr = strchr(codeptr,'\n');
+   if (codeptr != NULL) {
+     newlinecount++;
+     codeptr++;
+   }
+
+} /* Count newlines */
+
+ if (newlinecount <= 3) { /* At most one crossing */
+
+   outpoly = calloc(128,sizeof(char));
+   sprintf(outpoly,"[[1]]N ");
+   free(state);
+   return outpoly;
+
+ }
+
+/* Now back to your regularly scheduled programming. */
+
+ outpoly = calloc(MAXPOLY,sizeof(char)); // Space for a large polynomial
+ (state->readpos) = 0;  // Reset the globals
+ (state->writepos) = 0;
+
+ maxcrs=XCNT;    /* maximum crossings in a knot, including all limits */
+ chksiz= 50;     /* knot size trigger where (state->bilion) is checked, stats printed */
+ *(state->sign)= 255;      /* do 3 tests on the machine to verify trick operation */
+ i= (short) *(state->sign);
+ if (i< (lngi=0)){
+  write (1,"unsigned char problem - can't calculate knot >127 crossings\n",60);
+  if (maxcrs>127) maxcrs=127;
+ }
+ kstrt= 0x01020304;
+ p= (unsigned char *) &kstrt;
+ c= (unsigned char *) &lngi;
+ *(c++)= *(p++);
+ *(c++)= *(p++);
+ *(c++)= *(p++);
+ *c= *p;
+ if (lngi!= 0x01020304){
+  write (1,"long int pointer copy problem -- halt/restart won't work\n",57);
+ }
+ *nbuf= nbuf[1]= nbuf[2]= nbuf[3]= 0;
+ (state->t)[0]=1;
+ (state->t)[1]=2;
+ (state->t)[2]=3;
+ (state->t)[3]=4;
+ lp1= (long *) (state->t);
+ lp2= (long *) nbuf;
+ *lp2= *lp1;
+ if (*nbuf!=1 || nbuf[1]!=2 || nbuf[2]!=3 || nbuf[3]!=4){
+  write (1,"4 byte copy problem -- use PORTABLE PROGRAM version!\n",53);
+  exit (1);
+ }
+ if (sizeof(lngi)== ((state->suplng)=2)){
+  write(1,"halt/restart won't work, and watch for coefficient overflows\n",61);
+  cmpval= 10000;
+  chksiz= 20;
+ }
+ else cmpval= 1000000000;     /* how big a value fits in a poly memory slot? */
+ if (sizeof(lngi)== 8) (state->suplng)= 1;
+
+ // if (argc<2){
+ // write (1,"usage:  lmpoly -rs knotfile [knotfile ...]\n",43);
+ // exit (1);
+ //}
+
+ /* if ((out=open("lmknot.out",1))== -1){ */
+/*   if ((out=creat("lmknot.out",0644))== -1){ */
+/*    write (1,"fatal: cannot create output file 'lmknot.out'\n",46); */
+/*    exit (1); */
+/*   } */
+/*  } */
+/*  else lseek (out,(long) 0,2); */
+/*  close (out); */
+
+ *(state->count)= (state->restrt)= i= j= kstrt= nopro= 0;
+ stats= -1;
+
+ /* This code appears to detect "restarts" and "stats", neither of which
+    we are currently implementing. */
+
+ /* if (*argv[1]=='-'){
+  if (argc==2 && argv[1][1]=='r'){
+   (state->restrt)=1;
+   if (argv[1][2]=='s') stats= 0;
+  }
+  else if (argv[1][1]=='s'){
+   stats= 0;
+   ++argv;
+   --argc;
+  }
+  } */
+
+
+ signal(SIGTERM,mypause); // Not sure what this does.
+
+ lp1= state->plybuf;
+ sp= (state->bilbuf);
+ while (j<XCNT){
+  (state->poly)[j]= lp1;
+  (state->bilion)[j]= sp;
+  lp1+= 1+ 2* (XCNT- ++j);
+  sp+= 1+ 2* (XCNT-j);
+ }
+NEWFIL:
+
+ /* We comment out some "stats" code, since we won't display stats anyway. */
+
+ /* if (stats>0){     // remove stats info for previous knot file
+  i= strlen(*argv);
+  c= (unsigned char *) *argv+i-1;
+  if (i>11) i=11;
+  while (i--!=0 && *c!='/') --c;
+  p=t;
+  while (*++c!=0) *(p++)= *c;
+  *(p++)= '.';
+  *(p++)= 'l';
+  *p=0;
+  close (stats);
+  unlink(t);
+  } */
+ /* if (--argc==0) exit(0); */ /* This was the exit point for the program */
+
+ /* We also comment out some "restart" code since we aren't restarting */
+
+ /*if ((state->restrt)!=0){           // if I am restarting an old calculation
+  if ((in=open("lmpoly.(state->restrt)",0))== -1){
+   write (1,"couldn't find restart file\n",27);
+   exit (0);
+  }
+  read (in,nbuf,82);
+  read (in,(state->cbuf),12);
+  *argv= (char *) (state->cbuf);
+  read (in,(state->buf),7);
+  (state->numcrs)= *(state->buf);
+  xpow= (short) (state->buf)[2];
+  ypow= (short) (state->buf)[1];
+  (state->numlps)= (short) (state->buf)[3];
+  (state->poslnk)= (short) (state->buf)[4];
+  (state->neglnk)= (short) (state->buf)[5];
+  if (((state->buf)[6]&1) !=0) ypow= -ypow;
+  if (((state->buf)[6]&2) !=0) xpow|= 512;
+  read (in,*(state->crsbuf),(state->numcrs)*8);
+  i= 0;
+  while (i!=(state->numcrs)){
+   (state->sign)[i]= (state->crsbuf)[i][1]>>4;
+   (state->crsbuf)[i++][1]&=6;
+  }
+  p= (unsigned char *) &(state->lowx);
+  read (in,p,2);
+  p= (unsigned char *) &kstrt;
+  read (in,p,4);
+  p= (unsigned char *) &notbeg;
+  read (in,p,4);
+  read (in,(state->buf), (int) notbeg);
+  read (in,(char *) count,XCNT*4);
+  read (in,(char *) state->plybuf,4*XCNT*XCNT);
+  read (in,(char *) (state->bilbuf),2*XCNT*XCNT);
+  close (in);
+  in=0;
+  s= (state->cbuf)+14;
+  *s= EOFCHR;
+ }
+ else if ((in=open(*++argv,0))==-1){
+  write (1,"cannot open ",12);
+  write (1,*argv,strlen(*argv));
+  write (1,", skipping\n",11);
+  goto NEWFIL;
+ }
+ if (stats>=0){
+  i= strlen(*argv);
+  q= (unsigned char *) *argv+i-1;
+  if (i>11) i=11;
+  while (i--!=0 && *p!='/') --q;
+  p=t;
+  while (*++q!=0) *(p++)= *q;
+  *(p++)= '.';
+  *(p++)= 'l';
+  *p=0;
+  if ((stats=creat(t,0644)) <0) stats=0;
+ }
+ if ((state->restrt)!=0){
+  if (stats>0){
+   write (stats,nbuf,strlen(nbuf));
+   write (stats,"\n",1);
+  }
+  (state->restrt)=0;
+  goto STEP1; // restart file has set up all NEWNOT data already
+ }
+ */
+
+ c = (state->cbuf);
+
+ /* This code fragment copies the input file into a character buffer,
+    appending the EOF character to the end of the string. Instead, we
+    copy our input "code" buffer into the (state->cbuf) array.
+
+    Original code:
+
+    c[read(in,c,10240)]= EOFCHR;
+
+ */
+
+ int   mypos;
+ for(mypos = 0;code[mypos] != 0 && mypos < 10240-1;mypos++) {
+   c[mypos] = code[mypos];
+ }
+ c[mypos]= EOFCHR;
+
+ while (*c=='\n') ++c;
+
+ s=c;
+NEWNOT:
+ i= XCNT-1;
+ while (i!=0 && (state->count)[i]==0) --i;
+ if (*(state->count)!= ((state->numcrs)=0)){
+  if (stats>=0){
+   if ((out=open("lmknot.stats",1))== -1) out=creat("lmknot.stats",0644);
+   else lseek (out,(long) 0,2);
+  }
+/*   if (stats>=0 && out>0){ */
+/*    write (out,nbuf,strlen(nbuf)); */
+/*    write (out,"\n",1);     /\* write out statistics for knot just completed *\/ */
+/*    lngi=0; */
+/*    while (i!=0){ */
+/*     write (out,t,ntc((long)(i+1),t,state)); */
+/*     write (out,"     ",5); */
+/*     write (out,t,ntc(count[i],t)+1,state); */
+/*     lngi+= count[i--]; */
+/*    } */
+/*    write (out,"\ntotal: ",8); */
+/*    write (out,t,ntc(lngi,t,state)+1); */
+/*    write (out,"run: ",5); */
+/*    times(&hi); */
+/*    lngi= ((hi.tms_utime-kstrt)*5)/3; */
+/*    write (out,t,ntc(lngi/100,t,state)); */
+/*    write (out,".",1); */
+/*    len= ntc(lngi%100,t,state); */
+/*    write (out,"0",2-len); */
+/*    write (out,t,len); */
+/*    write (out," s\n\n",4); */
+/*    kstrt= hi.tms_utime; */
+/*    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40); */
+/*    close (out); */
+/*   } */
+  k= XCNT;
+  i=0;
+  while (k!=0 && i==0){
+   i= 2+ 2*(XCNT-k);
+   lp1= (state->poly)[--k];
+   sp= (state->bilion)[k];
+   while (--i!=0 && *lp1==0 && *(sp++)==0) ++lp1;
+  }
+  if (i!=0){
+
+    /* Original code:
+
+       if ((out= open("lmknot.out",1))<0) out=open("temp.out",1);
+
+       lseek (out,(long) 0,2);
+       write (out,nbuf,strlen(nbuf));
+       write (out,"\n",1); */
+
+    /* write out polynomial for knot just completed */
+
+    /* These lines would copy the first line of the crossing code into
+       the output. We don't need this, so we forget it */
+
+    /*strwrite(outpoly,(char *)(nbuf),strlen((char *)(nbuf)));
+      strwrite(outpoly," ",1); */
+
+    /*
+    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40);
+    if (count[1]!=0) write (out,"coefficient overflow error: output BAD\n",39);
+    */
+
+    if ((state->count)[2]<0) {
+
+      printf("lmpoly: knot became inconsistent.\n");
+      exit(1);
+
+    }
+
+    if ((state->count)[1]!=0) {
+
+      printf("lmpoly: coefficient overflow error.\n");
+      exit(1);
+
+    }
+
+    len=m= -1;
+    while (m++<k || (state->lowx) <= 0){
+        if ((state->lowx)== (i=0)) strwrite (outpoly,"[",1,state);
+        n= XCNT-m-1;
+        j= n*2;
+        while (j!=n && (state->poly)[m][j]==0 && (state->bilion)[m][j]==0) --j;
+        while (i!=n && (state->poly)[m][i]==0 && (state->bilion)[m][i]==0) ++i;
+        if (len==0 || (state->lowx)>=0 || i!=j || (state->poly)[m][i]!=0 || (state->bilion)[m][i]!=0){
+            while (i<=j){
+                if (i==n) strwrite (outpoly,"[",1,state);
+                h=0;
+                lngi= (state->poly)[m][i];
+                if (lngi>=cmpval || lngi<= -cmpval){
+                    h= lngi/cmpval;
+                    lngi-= h* cmpval;
+                }
+                h+= (state->bilion)[m][i];
+                if (h*lngi <0){   /* (state->bilion) and poly are different signs */
+                    if (h<0){
+                        lngi-= cmpval;
+                        ++h;
+                    }
+                    else {
+                        lngi+= cmpval;
+                        --h;
+                    }
+                }
+                if (h!=0){
+                    if (lngi<0) lngi= -lngi;
+                    strwrite (outpoly,(char *)(state->t),ntc((long) h,(char *)(state->t),state),state);
+                    len= ntc(lngi,(char *)(state->t),state);
+                    if (cmpval==10000) len2= 4-len;
+                    else len2= 9-len;
+                    strwrite (outpoly,"00000000",len2,state);
+                    strwrite (outpoly,(char *)(state->t),len,state);
+                }
+                else strwrite (outpoly,(char *)(state->t),ntc(lngi,(char *)(state->t),state),state);
+                if (i++ ==n) strwrite (outpoly,"]",1,state);
+                if (i<=j) strwrite (outpoly," ",1,state);
+            }
+            if ((state->lowx)== (len=0)) strwrite (outpoly,"]",1,state);
+            strwrite (outpoly,"N",1,state);
+        }
+        ++(state->lowx);
+    }
+  }
+  strwrite (outpoly," ",1,state);
+  /* close(out); */ /* We are done writing the polynomial, so return */
+  free(state);
+  return outpoly;
+ }
+ i= XCNT;
+ while (i!=0) (state->count)[--i]=0; /* Erase the (state->count) buffer */
+ c=s;
+ *nbuf=0;                   /* Erase the nbuf string? */
+ if (*c!='1' || (*(c+1)!='+' && *(c+1)!='-')){
+  /* Copy first line of 's' into nbuf */
+  p= nbuf;
+  while (*c!='\n' && *c!= EOFCHR) *(p++)= *(c++);
+  *p= 0;
+  /* if (*c != EOFCHR && stats>0){ */
+/*    lseek (stats,(long) 0,0); */
+/*    write (stats,nbuf,strlen(nbuf)); */
+/*    write (stats,"\n",1); */
+/*   } */
+ }
+ if (*c=='\n') ++c;
+ p= *(state->crsbuf);
+ while (*c!='\n' && *c!=EOFCHR){
+  if ((state->numcrs)==maxcrs){
+    //write (1,"too many crossings in knot\n",27);
+    printf("lmpoly: too many crossings in knot\n");
+    free(outpoly);
+    free(state);
+    return NULL;
+  }
+  while (*c>='0' && *c<='9') ++c;
+  if (*c=='+') (state->sign)[(state->numcrs)]=6;      /* (state->sign)[] says what crossings are + or - */
+  else if (*c=='-') (state->sign)[(state->numcrs)]=2;
+  else if (*c==EOFCHR) --c;
+  else {
+    //write (1,"the format of this knot is unreadable, skipping file\n",53);
+    //close (in);
+    //goto NEWFIL;
+    printf("lmpoly: Could not parse input string.\n");
+    free(outpoly);
+    free(state);
+    return NULL;
+  }
+  ++c;
+  j=4;
+  while (j--!= (i=0) && *c!=EOFCHR){
+   while (*c>='0' && *c<='9'){
+    i*=10;
+    i+= *(c++)-0x30;
+   }
+   if (i==0){
+     //write (1,"the format of this knot is unreadable, skipping file\n",53);
+     //close (in);
+     //goto NEWFIL;
+     printf("lmpoly: Could not parse input string.\n");
+     free(outpoly);
+     free(state);
+     return NULL;
+   }
+   *(p++)= i-1;
+   if (*c!=EOFCHR){
+    if (*c<'a' || *c>'d'){
+      //write (1,"the format of this knot is unreadable, skipping file\n",53);
+      //close (in);
+      //goto NEWFIL;
+      printf("lmpoly: Could not parse input string.\n");
+      free(outpoly);
+      free(state);
+      return NULL;
+    }
+    *(p++)= (*(c++)-'a')*2;
+   }
+  }
+  ++(state->numcrs);
+  if (*c=='\n') ++c;
+ }
+ if (*c==EOFCHR){
+  c=(state->cbuf);
+  len=10240;
+  while (*s!=EOFCHR){
+   *(c++)= *(s++);
+   --len;
+  }
+  if (in!=0 && (i=read(in,c,len))!=0){
+   c[i]=EOFCHR;
+   c=(state->cbuf);
+   while (*c=='\n') ++c;
+   s=c;
+   goto NEWNOT;
+  }
+  *c= EOFCHR;
+  if (in!=0){
+   close (in);
+   in=0;
+  }
+  else goto NEWFIL;
+  if ((state->numcrs)<2) goto NEWFIL;
+ }
+ while (*c=='\n') ++c;
+ s=c;
+ lp1= *(state->poly);
+ sp= *(state->bilion);
+ lngi= XCNT*XCNT;
+ while (--lngi!=0) *(lp1++)= *(sp++)= 0;
+ (state->notbeg)=(state->numlps)=(state->poslnk)=(state->neglnk)= xpow= ypow= 0;
+ if (conchk(state)!=0) exit(0);
+ *(state->count)=1;
+STEP1:
+ skflag=0;
+RESTRT:
+ if ((state->restrt)!=0){
+   /* We don't include the restart functionality for now. */
+
+  /* if ((out=creat("lmpoly.restrt",0644))!= -1){ */
+/*    write (out,nbuf,82); */
+/*    i= strlen(*argv)-11; */
+/*    if (i<0) i=0; */
+/*    write (out,*argv+i,12); */
+/*    *(state->cbuf)= (state->numcrs); */
+/*    if (ypow<0){ */
+/*     ypow= -ypow; */
+/*     (state->cbuf)[6]=1; */
+/*    } */
+/*    else (state->cbuf)[6]=0; */
+/*    if ((xpow&512) !=0) (state->cbuf)[6]|= 2; */
+/*    (state->cbuf)[1]= ypow; */
+/*    (state->cbuf)[2]= xpow; */
+/*    (state->cbuf)[3]= (state->numlps); */
+/*    (state->cbuf)[4]= (state->poslnk); */
+/*    (state->cbuf)[5]= (state->neglnk); */
+/*    write (out,(state->cbuf),7); */
+/*    i= -1; */
+/*    while (++i!=(state->numcrs)) (state->crsbuf)[i][1]|= (state->sign)[i]<<4; */
+/*    write (out,*(state->crsbuf),(state->numcrs)*8); */
+/*    p= (un(state->sign)ed char *) &(state->lowx); */
+/*    write (out,p,2); */
+/*    times(&hi); */
+/*    kstrt-= hi.tms_utime; */
+/*    p= (un(state->sign)ed char *) &kstrt; */
+/*    write (out,p,4); */
+/*    p= (unsigned char *) &notbeg; */
+/*    write (out,p,4); */
+/*    write (out,buf, (int) notbeg); */
+/*    write (out,(char *) count,XCNT*4); */
+/*    write (out,(char *) state->plybufn,4*XCNT*XCNT); */
+/*    write (out,(char *) (state->bilbuf),2*XCNT*XCNT); */
+/*    close (out); */
+/*    close (stats); */
+/*    exit(0); */
+/*   } */
+   /*write (1,"couldn't create restart file 'lmpoly.restrt'\n",45);*/
+
+   printf("lmpoly: Warning! This version does not save"
+	  " restart info on quit.\n"
+	  "        Terminating run now.\n\n");
+   exit(0);
+   /*restrt=0; */
+ }
+/* FIRST -- remove figure 8 loops, 2 cases  "#-#d#c#b#a"  "#+#b#a#d#c" */
+/* SECOND -- remove monogons (must recheck previous crossings) */
+/* 4 cases  "#+#b#a????"  "#+????#d#c"  "#-#d????#a"  "#-??#c#b??" */
+/* THIRD -- remove bigons -- make sure loops don't get forgotten. */
+/* 2 cases "k?mcmb???? m???kbka??"  "k?mc????md  m?????kakd" */
+/* bigon yanker MUST be completely thorough or loops can get lost later */
+ *dspair=g= i= (state->numcrs);
+ c=p= (state->crsbuf)[i];
+ k=2;
+ while (i--!=0){  /* loop through all crossings */
+  p-=8;
+  if (*p==i){
+   if (p[4]==i) ++(state->numlps);
+   else mrecon (p+4,p+(state->sign)[i],state);
+   squish (i,state);
+   goto STEP1;
+  }
+  else if (p[4]==i){
+    mrecon (p,p+((state->sign)[i]^4),state);
+    squish (i,state);
+   goto STEP1;
+  }
+   /* this bigon test checks that ka points to some mc, */
+    /* and kd to md, or kb to mb */
+  if (p[1]==4 && ((*p==p[6] && p[7]==6) || (*p==p[2] && p[3]==2))){
+   if ((j= *p) ==p[2]) k=6;
+   c= (state->crsbuf)[j];
+   if (p[4]==j) ++(state->numlps);
+   if (p[2]==p[6]) ++(state->numlps);
+   mrecon (p+4,c,state);
+   mrecon (p+k,c+k,state);
+   sqush2 (i,j,state);
+   goto STEP1;
+  }
+  (state->bstlst)[i]= 0;
+ }
+ if ((state->numcrs)<6) g=0;
+/* find very good and ok triples */
+ while (g--!= (lngi=0)){
+  c-=8;
+  p= (state->crsbuf)[*c]+ ((c[1]^2)&2);
+  q= (state->crsbuf)[c[4]]+ ((c[5]^2)&2);
+  if ((i= c[2]) != (j= c[6]) && *c!=c[4]){
+   if ((m= *q) == (n= q[4])) m=n= -1;
+   if ((h= *p) == (k= p[4])) h=k= -1;
+   if ((h==i && k==j) || (j==h && k==i)) lngi=1;
+   if ((m==i && n==j) || (m==j && n==i)) lngi|=2;
+   if ((n==j || m==j) && (k==j || h==j)) lngi|=4;
+   if ((m==i || n==i) && (h==i || k==i)) lngi|=8;
+  }
+  else {
+   h=0;       /* there is a ring through this crossing */
+   if (i!=j){
+    i= *c;   /* on over branch */
+    h=2;
+   }
+   else if (*c==c[4]){
+    ++(state->numlps); /* knot's a distant union with a 2-link */
+    if ((state->sign)[g]==2) ++(state->neglnk);
+    else ++(state->poslnk);
+    sqush2 (g,i,state);
+    goto STEP1;
+   }
+   j=h;
+   c+=h;
+   if ((state->sign)[g]!=(state->sign)[i]) ++(state->numlps); /* loose ring */
+   else {
+    if ((state->sign)[g]==2) ++(state->neglnk);
+    else ++(state->poslnk);
+    j= h^2;
+   }
+   p= (state->crsbuf)[i]+j;  /* only do one mrecon unless I HAVE to do 2 */
+   q= c+4;
+   if (*c==i){
+    if ((c[1]&4) ==0) c= p+4;
+    else c=p;
+   }
+   else if (*q==i){
+    if ((q[1]&4) ==0) q= p+4;
+    else q=p;
+   }
+   else mrecon (p,p+4,state);
+   mrecon (c,q,state);
+   sqush2 (g,i,state);
+   goto STEP1;
+  }
+  if (lngi!=0){
+   k= lngi;
+   *dspair=1;
+   if ((k&3)!=0){
+    if ((c[3]&c[7]&2)!=0){
+      triple((short) ((k&2)<<1),g,c,state);
+     goto STEP1;
+    }
+    if (((c[3]^c[7])&2)!=0){
+     if ((c[((k&2)<<1)|1]&2)==0){
+      if ((state->sign)[c[(k&2)<<1]]!=(state->sign)[g]) (state->bstlst)[i]= (state->bstlst)[j]= -19;
+      else (state->bstlst)[i]= (state->bstlst)[j]= 8;
+     }
+     else {
+      n=8;
+      if ((state->sign)[c[(k&2)<<1]]==(state->sign)[g]) n= -8;
+      sp= (state->bstlst)+i;
+      if ((c[3]&2)!=0) sp= (state->bstlst)+j;
+      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
+     }
+    }
+    else {
+     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
+     else (state->bstlst)[g]-= 8;
+    }
+   }
+   if (k>3){
+    if (((c[1]|c[5])&2)==0){
+      triple((short) ((k&4)|2),g,c,state);
+     goto STEP1;
+    }
+    if (((c[1]^c[5])&2)!=0){
+     if ((c[(k&4)|3]&2)!=0){
+      if ((state->sign)[c[(k&4)|2]]!=(state->sign)[g]) (state->bstlst)[*c]= (state->bstlst)[c[4]]= -19;
+      else (state->bstlst)[*c]= (state->bstlst)[c[4]]= 8;
+     }
+     else {
+      n=8;
+      if ((state->sign)[c[(k&4)|2]]==(state->sign)[g]) n= -8;
+      sp= (state->bstlst) + c[4];
+      if ((c[1]&2)!=0) sp= (state->bstlst)+ *c;
+      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
+     }
+    }
+    else {
+     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
+     else (state->bstlst)[g]-= 8;
+    }
+   }
+  }
+ }
+ /* circuit remover */
+ j= (state->numcrs)-1;
+ if (j<3) j= -1;
+ else if (j<11){    /* <12 will blow up */
+  p= *(state->crsbuf)+1;
+  i=(state->numcrs);
+  while (i--!=0 && *p!=4) p+=8; /* only non-alternating (a to c) knots */
+  if (i< (n=0)) j= -1;
+  else p= (state->crsbuf)[j]+5;   /* remove twists */
+  while (j>=0){
+   n^=4;
+   k= *(p--)^4;
+   if ((k&2) == 0){
+    c= (state->crsbuf)[*p]+k;
+    i= *c;
+    k= c[1]^4;
+    if ((k&2) != 0 && (state->crsbuf)[i][k]==j){
+      untwst ((short) *p,i,j,n,state);
+      squish (j,state);
+     goto STEP1;
+    }
+   }
+   if (n==0) --j;
+   p-=3;
+  }
+ }
+ g= (state->donlnk)[XCNT]= m= 0;
+ while ((n=j) >= (*(state->tt)=(state->tt)[2]=h= 0)){
+  k=g;
+  do {
+   p= (state->crsbuf)[j]+k;
+   j= *p;
+   k= p[1]^4;
+   i= h;
+   p=(state->clist);
+   while (i--!=0 && *(p++) != j);
+   if (i>=0){
+    j= n;              /* circuit crosses itself */
+    goto NXTCIR; /* skip circuit, wait for a sub-piece that doesn't */
+   }
+   else {
+    ++(state->tt)[k&2];
+    *p= j;
+    (state->t)[h++]= (k&2)^2;
+   }
+  } while (n!=j);
+  if (k != g) --(state->tt)[k&2];
+  else k= -1;
+  if (*(state->tt)==0 || (state->tt)[2]==0){
+    rmcir(h,j,k,state->t,0,state);
+   goto STEP1;
+  }
+  if (tstcir(h,(state->bstlst),dspair,&skflag,state) !=0) goto RESTRT;
+  if (h==3){
+   (state->stc)[m++]=j; /* store vertex of 3 crossing circuit for (state->bstlst) later */
+   (state->stc)[m++]=g;
+   (state->stc)[m++]=k^4;
+  }
+NXTCIR:
+  if (g==0) g= (state->sign)[j];
+  else {
+   --j;
+   g=0;
+  }
+ }
+/* if knot is tiny, store polynomial coefficients and restart a stored knot */
+ if ((state->numcrs)<6){
+  lngi= 1;
+  if ((state->numcrs)==0) --(state->numlps);
+  delpow(state);
+  if ((xpow&512)!=0){
+   lngi= -1;
+   xpow&=511;
+  }
+  if ((state->numcrs)==4){
+   c= *(state->crsbuf);
+   p= c+4;
+   if (*p==*c || c[2]==p[2]){
+    g= -3;
+    if (*p==p[2] && *c==c[2]) g= -4;
+   }
+   else {
+    g= 0;  /* 0 is flag for knot */
+    i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    if (i!=16) g=2;     /* flag for 2 links   */
+   }
+  }
+  else if ((state->numcrs)==5){
+   n=10;
+   i=j= 0; /* step through knot, if don't get to end, it's a link */
+   do {
+    p= (state->crsbuf)[i]+j;
+    i= *p;
+    j= p[1]^4;
+    --n;
+   } while (i!=0 || j!=0);
+   if (n>0){
+    i=h= 0; /* 5 crossing 2 link  or twisted 3 link  or tref and 2 links */
+    g=m= 1;      /* or tref + link */
+    k= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
+    if (k>10 && k<30){
+     if (k>20){
+      while ((state->sign)[i]==6) ++i;
+     }
+     else {
+      while ((state->sign)[i]==2) ++i;
+     }
+     if (k==14 || k==26) goto FOURX;
+     c= (state->crsbuf)[i];
+     p= c+4;
+     if (*p==*c || p[2]==c[2]){
+      if (*p==p[2] && *c==c[2]) g=3;
+      else {
+       h=4;
+       if ((state->sign)[i]==6) m= -1;
+      }
+     }
+     else {
+      g=2;
+      j=0;
+      if ((state->sign)[*c]!=(state->sign)[i]) j=4;
+      k= c[j];
+      if ((state->crsbuf)[k][j]!=i){
+       if ((state->sign)[i]==6) m= -1;
+      }
+      else if ((state->sign)[i]==2) m= -1;
+     }
+    }
+    if (g==1){
+     if (h==0 && (state->sign)[i]==2) m= -1;
+     i=j=k= 5;
+     c= state->t;
+     while (j!=0) c[--j]=0;
+     while (k--!=0){
+      j= (state->sign)[k]; /* trefs + circles have fake bigons at all crossings */
+      p= (state->crsbuf)[k]; /* so find all fake bigons */
+      if (p[1]==(j^4) && (*p==p[2] || *p==p[6])) c[k]=c[*p]= 1;
+      if (p[5]==j && p[4]==p[j]) c[k]=c[p[4]]= 1;
+     }
+     while (--i>=0 && c[i]!=0);
+     if (i>=0){
+FOURX: /* found twisted 3 link -- "squish" twist before making polynomial */
+      while (++i!=6) (state->sign)[i-1]= (state->sign)[i];
+      (state->numcrs)=4;
+      g= -3;  /* flag for 4 crossing 3 links */
+     }
+     else {
+      p= *(state->crsbuf);
+      if (n==4 || (n==8 && *p==p[4] && p[2]==p[6])) g=3;
+     }
+    }
+   }
+   else g= -1; /* it's a knot! */
+  }
+  i= (*(state->sign))/2 -2;
+  k= xpow;
+  n=ypow;
+  p= *(state->crsbuf);
+  if ((state->numcrs)==5){
+   if (g<0){ /* knots */
+    if (i>0){
+     if (*p==p[6] && p[2]==p[4] && p[10]==p[12]) g= -2;
+    }
+    else if (*p==p[2] && p[4]==p[6] && p[8]==p[10]) g= -2;
+    if (g== -1){ /* knot five-two */
+      addin(lngi,(short)(n-i*6),k,0,0,state);      /* the flags at the end of addin  */
+      addin(lngi,(short)(n-i*4),k,-1,2,state);     /* let you do two addins at once, */
+      addin((long)-lngi,(short)(n-i*2),k,-1,2,state);    /* for addins with equal ypows.   */
+    }
+    else { /* knot five-one */
+     k+=2;
+     addin((long)(-4*lngi),(short)(n-i*4),k,0,0,state);
+     addin((long)-lngi,(short)(n-i*6),k,-2,-2,state);
+     addin(lngi,(short)(n-i*4),(short)(k+2),3,-4,state);
+    }
+   }
+   else { /* links */
+    if (g==1){ /* trefoil + circle */
+     if (h!=0){
+       addin(lngi,(short)(n-m*3),++k,-1,-2,state);
+       addin((long)(3*lngi),(short)(n-m),k,-1,-2,state);
+       addin(lngi,(short)(n+m),k,-2,-2,state);
+       addin((long)-lngi,(short)(n-m),(short)(k+2),0,0,state);
+     }
+     else {
+       addin((long)-lngi,(short)(n-m*7),--k,0,0,state);
+       addin((long)(-3*lngi),(short)(n-m*5),k,0,0,state);
+      k+=2;
+      addin((long)(3*lngi),(short)(n-m*3),k,0,0,state);
+      addin((long)(2*lngi),(short)(n-m*5),k,0,0,state);
+      addin((long)-lngi,(short)(n-m*3),(short)(k+2),2,-4,state);
+     }
+    }
+    else if (g==2){ /* 2 component link five-one */
+      addin((long)-lngi,(short)(n+m),--k,-2,2,state);
+      addin((long)-lngi,(short)(n-m),k,-1,2,state);
+      addin(lngi,(short)(n+m*3),(short)(k+2),0,0,state);
+      addin((long)-lngi,(short)(n+m),(short)(k+4),0,0,state);
+    }
+    else { /* trefoil and circle + circle */
+     i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
+     m=1;
+     if (i<20){
+      m= -1;
+      i= 40-i;
+     }
+     j= k-2;
+     if (i!=30){
+       addin(lngi,(short)(n-m*4),j,-1,2,state);
+       addin((long)(4*lngi),(short)(n-m*2),j,-1,2,state);
+       addin((long)(5*lngi),n,j,0,0,state);
+       addin((long)-lngi,(short)(n+m*2),k,-2,-2,state);
+      k+=2;
+      addin(lngi,n,k,-4,-2,state);
+      addin(lngi,(short)(n-m*2),k,0,0,state);
+     }
+     else {
+       addin(lngi,(short)(n-m*8),j,0,0,state);
+       addin((long)(5*lngi),(short)(n-m*4),j,0,0,state);
+       addin((long)(2*lngi),(short)(n-m*2),j,0,0,state);
+       addin((long)(-2*lngi),(short)(n-m*6),k,-2,-2,state);
+      k+=2;
+      addin(lngi,(short)(n-m*4),k,-5,-2,state);
+      addin(lngi,(short)(n-m*2),k,-3,-2,state);
+     }
+    }
+   }
+  }
+  else if ((state->numcrs)==4){
+   if (g==0){ /* knot 4-1 */
+     addin((long)-lngi,(short)(n-2),k,0,0,state);
+     addin((long)-lngi,n,k,-1,2,state);
+     addin((long)-lngi,(short)(n+2),k,0,0,state);
+   }
+   else if (g>0){
+    i=1;
+    if (*(state->crsbuf)[*p]==0){
+     if (*(state->sign)==6) i= -1; /* 2 link 4^2-1 */
+     addin((long)-lngi,(short)(n+i*3),--k,-1,2,state);
+     addin((long)-lngi,(short)(n+i*5),k,0,0,state);
+     addin((long)-lngi,(short)(n+i),(short)(k+2),0,0,state);
+    }
+    else {
+     if (*(state->sign)==2) i= -1;
+     addin((long)-lngi,(short)(n-i*5),--k,-1,2,state);
+     addin((long)-lngi,(short)(n-i*3),k,-3,2,state);
+     addin((long)-lngi,(short)(n-i*3),(short)(k+4),0,0,state);
+    }
+   }
+   else if (g== -3){ /* 3 link */
+    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    i= 8- j/2;
+    if (i==0){
+      addin((long)-lngi,(short)(n-2),k,-1,-2,state);
+      addin((long)(-2*lngi),n,k,-1,-2,state);
+      addin((long)-lngi,(short)(n+2),k,-1,-2,state);
+      addin(lngi,n,(short)(k+2),0,0,state);
+    }
+    else {
+     j= k-2;
+     addin(lngi,(short)(n-2+i),j,0,0,state);
+     addin((long)(2*lngi),(short)(n+i),j,-1,2,state);
+     addin(lngi,(short)(n+2+i),j,0,0,state);
+     addin(lngi,(short)(n+i/2),(short)(k+2),-2,-2,state);
+    }
+   }
+   else { /* circle + circle  and  circle + circle */
+    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    i= 8- j/2;
+    if (i==0){
+      addin(lngi,(short)(n-3),--k,-1,-2,state);
+      addin((long)(3*lngi),(short)(n-1),k,-1,-2,state);
+      addin((long)(3*lngi),(short)(n+1),k,-1,-2,state);
+      addin(lngi,(short)(n+3),k,-1,-2,state);
+     k+=2;
+     addin((long)-lngi,(short)(n-1),k,0,0,state);
+     addin((long)-lngi,(short)(n+1),k,0,0,state);
+    }
+    else {
+     k-=3;
+     addin((long)-lngi,(short)(n-3+i),k,0,0,state);
+     addin((long)(-3*lngi),(short)(n-1+i),k,0,0,state);
+     addin((long)(-3*lngi),(short)(n+1+i),k,0,0,state);
+     addin((long)-lngi,(short)(n+3+i),k,0,0,state);
+     k+=2;
+     addin((long)(2*lngi),(short)(n-2+(i*3)/4),k,0,0,state);
+     addin((long)(4*lngi),(short)(n+(i*3)/4),k,0,0,state);
+     addin((long)(2*lngi),(short)(n+2+(i*3)/4),k,0,0,state);
+     k+=2;
+     addin((long)-lngi,(short)(n-1+i/2),k,0,0,state);
+     addin((long)-lngi,(short)(n+1+i/2),k,0,0,state);
+    }
+   }
+  }
+  else if ((state->numcrs)==3){
+    addin((long)-lngi,(short)(n-i*4),k,0,0,state);
+    addin(lngi,(short)(n-i*2),(short)(k+2),-2,-2,state);
+  }
+  else if ((state->numcrs)!=0){
+    addin(lngi,(short)(n-i),--k,-1,2,state);
+    addin(lngi,(short)(n-i*3),k,0,0,state);
+  }
+  else addin(lngi,n,k,0,0,state);
+  if ((state->notbeg)!=0){
+   (state->numcrs)= (state->buf)[(state->notbeg)-1];
+   (state->numlps)= (state->buf)[(state->notbeg)-4];
+   (state->poslnk)= (state->buf)[(state->notbeg)-5];
+   (state->neglnk)= (state->buf)[(state->notbeg)-6];
+   xpow= (state->buf)[(state->notbeg)-3];
+   ypow= (state->buf)[(state->notbeg)-2];
+   if ((state->buf)[(state->notbeg)-7]!=0) ypow= -ypow;
+   if ((state->buf)[(state->notbeg)-8]!=0) xpow|= 512;
+   (state->notbeg)-= 8+ (state->numcrs)*8;
+   i=0;
+   p= *(state->crsbuf);
+   c= (state->buf)+(state->notbeg);
+   while (i!=(state->numcrs)){
+    j=4;
+    while (j--!=0){
+     *(p++)= *(c++);
+     *(p++)= *(c++)&6;
+    }
+    (state->sign)[i++]= (*(c-7))>>4;
+   }
+   if ((state->numcrs)>chksiz){
+    lp1= *(state->poly);
+    sp= *(state->bilion);
+    lngi= XCNT*XCNT;
+    while (lngi--!=0){
+     if (*lp1> cmpval){
+      if ((*sp)++ == MAXBIL) (state->count)[1]=1;
+      *lp1-= cmpval;
+     }
+     else if (*lp1< -cmpval){
+      if ((*sp)-- == -MAXBIL -1) (state->count)[1]=1;
+      *lp1+= cmpval;
+     }
+     ++lp1;
+     ++sp;
+    }
+    /* if (stats>0){ */
+/*      lseek (stats,(long)(strlen(nbuf)+1),0); */
+/*      lngi=0; */
+/*      i= XCNT-1; */
+/*      while (count[i]==0) --i; */
+/*      while (i!=0){ */
+/*       write (stats,t,ntc((long)(i+1),t),state); */
+/*       write (stats,"     ",5); */
+/*       write (stats,t,ntc(count[i],t)+1,state); */
+/*       lngi+= count[i--]; */
+/*      } */
+/*      write (stats,"\ntotal: ",8); */
+/*      write (stats,t,ntc(lngi,t,state)+1); */
+/*      write (stats,"\nbiggest stacked knots:\n",24); */
+/*      i=12; */
+/*      sp= (state->bstlst); */
+/*      while (i--!=0) sp[i]=0; */
+/*      lngi=notbeg-1; */
+/*      while (lngi>0){ */
+/*       k= (state->buf)[lngi]; */
+/*       sp[++i]= k; */
+/*       lngi-= k*8 + 8; */
+/*       if (i==10) i= -1; */
+/*      } */
+/*      k= 0; */
+/*      while (*sp!=0){ */
+/*       j= ntc((long) *(sp++),t,state); */
+/*       k+=j+1; */
+/*       write (stats,t,j); */
+/*       write (stats," ",1); */
+/*      } */
+/*      write (stats,"                                            ",44-k); */
+/*      write (stats,"\n",1); */
+/*     } */
+   }
+  }
+  else (state->numcrs)=0;
+ }
+ else {
+/* locate fake bigons, 0 branch bigons, and 3 cross circuits for (state->bstlst) */
+  k= (state->numcrs);
+  p= (state->crsbuf)[k]; /* only set k, other crossings will be set in their loops   */
+  c= (state->sign)+k;    /* If a tangle is added to the knot with twists, I can find */
+  while (k--!=0){ /* it sometimes and remove the twists! */
+   n= (state->bstlst)[k];
+   p-=8;
+   j= *--c;
+   i= *p;
+   g= p[4];
+   if (g==p[j]){   /* good fake bigon behind me */
+    if (p[5]!=j){
+     c= (state->crsbuf)[g];  /* wrong! twisted tangle ahead! remove twists! */
+     mrecon (p+(j^4),c+ (p[j+1]^4),state);
+     mrecon (p,c+ (p[5]^4),state);
+     sqush2 (k,g,state);
+     goto STEP1;
+    }
+    if (n>0) n= -4-n;
+    else n+= -8;
+   }
+   if (p[j]==(state->crsbuf)[g][(state->sign)[g]^j^4] && (p[5]&2)!=0 && nopro!=(state->numcrs)){
+    if ((p[j+1]&2)!=0){
+     if (n<0) n-=12;
+     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
+    }
+    else { /* 0 branch has fake bigon */
+     g=1;
+     if (p[5]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
+     if (n<0) n-=g;
+     else if (n>0) n+=g;
+    }
+   }
+   j^=4;
+   if (p[j]==i){  /* good fake bigon ahead of me */
+    if (p[1]!=j){
+     q= (state->crsbuf)[i];  /* wrong! twisted tangle behind! remove twists! */
+     mrecon (p+4,q+ (p[1]^4),state);
+     mrecon (p+ *c,q+ (p[j+1]^4),state);
+     sqush2 (k,i,state);
+     goto STEP1;
+    }
+    if (n>0) n= -4-n;
+    else n+= -8;
+   }
+   else if (p[j^4]==i){  /* bad fake bigon ahead */
+    if (n<0) n-= 8;
+    else if (n<8) n= 8;
+    if ((state->bstlst)[i]<0) (state->bstlst)[i]-=8;     /* mutualize */
+    else if ((state->bstlst)[i]<8) (state->bstlst)[i]=8;
+   }
+   if (p[j]==(state->crsbuf)[i][(state->sign)[i]^j^4] && (p[1]&2)!=0 && nopro!=(state->numcrs)){
+    if ((p[j+1]&2)!=0){
+     if (n<0) n-=12;
+     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
+    }
+    else { /* 0 branch has fake bigon (1 point) */
+     g=1;
+     if (p[1]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
+     if (n<0) n-=g;
+     else if (n>0) n+=g;
+    }
+   }
+   (state->bstlst)[k]=n;
+  }
+  c= (state->stc);
+  i= -8;
+  if (nopro==(state->numcrs)) m=0;
+  while (m>0){
+   m-=3;
+   n= *(c++);
+   g= *(c++);
+   p= (state->crsbuf)[n];  /* busting vertex of 3 cross circuit makes a removeable */
+   sp= (state->bstlst)+n;  /* + or - link on the 0 branch -- free 2 reduction */
+   k= p[*(c++)];
+   j= p[g];
+   if ((p[g|1]&2) != 0) p= (state->crsbuf)[j];
+   else p= (state->crsbuf)[j]+(state->sign)[j];
+   if (*p==k) --i;
+   if (*sp<0) *sp+= i-4;
+   else if (*sp==0) *sp= 4-i;
+   else *sp= i- *sp;
+  }
+  i= nopro= (state->numcrs);
+  k=n= 0;
+  sp= (state->bstlst)+(state->numcrs);
+  while (i--!=0){
+   if (*--sp<n){
+    n= *sp;
+    j=i;
+   }
+   else if (*sp>k){
+    k= *sp;
+    m=i;
+   }
+  }
+  if (n==0){
+   if (k==0){
+    j= dspair[2];
+    nopro=0;
+   }
+   else j=m;
+  }
+  else if (n>-14 && k>12) j=m; /* since exponential growth is 1.41^n */
+  ypow += bust(j,xpow,ypow,state);
+  xpow^=512;
+  ++(state->count)[(state->numcrs)-1];
+ }
+ // This point must be reached fairly often, so we're going to put in the timeout code here.
+ end = clock();
+ cpu_time_used = ((double)(end - start))/CLOCKS_PER_SEC;
+ if (timeout > 0 && cpu_time_used > timeout) {
+   free(outpoly);
+   free(state);
+   return NULL;
+ }
+ if ((state->numcrs)!=0) goto STEP1;
+ goto NEWNOT;
+}
+
+void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state)
+/* short top, vnum, vbrnch;
+   unsigned char *ovundr;
+   int flag; */
+{
+ register short i, j, k, h, m, n;
+ register unsigned char *s, *c, *p;
+ register long *lp1, *lp2;
+ short g;
+ if ((m=vbrnch) >=0){
+  i= vnum;
+  s= (state->crsbuf)[i];
+  k= s[m];
+  g= s[m|1];
+  if (m!=0) c= s+4;
+  else c= s+((state->sign)[i]^4);
+  p= (state->crsbuf)[k]+g;
+  h= *p= *c;
+  n= p[1]= c[1];
+  p= (state->crsbuf)[h]+n;
+  *p= k;
+  p[1]= g;
+  s[6]= s[4]= s[2]= *s= i;
+ }
+ else ++(state->numlps);
+ s= (state->clist);
+ j= -1;
+ while (top-1 > (i=k= ++j)){
+  while (++i<top){
+   if (s[i] < s[k]) k=i;
+  }
+  if (k!=j){    /* order crossings in (state->clist) */
+   i= s[j];
+   s[j]= s[k];
+   s[k]=i;
+   m= ovundr[j];
+   ovundr[j]= ovundr[k];
+   ovundr[k]= m;
+  }
+ }
+      /* relink */
+ m= top;
+ while (m--!=0){
+  i= s[m];
+  g= ovundr[m];
+  k= (state->crsbuf)[i][g];
+  j= (state->crsbuf)[i][g|1];
+  h= (state->crsbuf)[k][j]= (state->crsbuf)[i][g|4];
+  n= (state->crsbuf)[k][j|1]= (state->crsbuf)[i][g|5];
+  (state->crsbuf)[h][n]= k;
+  (state->crsbuf)[h][n|1]= j;
+ }
+ if (flag!=0) return;
+      /* squish crossings out of the list */
+ i= *s;
+ lp1= (long *) (state->crsbuf)[i];
+ lp2=lp1+(state->suplng);
+ p= (state->sign)+i;
+ c=p+1;
+ j= 0;
+ k=1;
+ while (++i!=(state->numcrs)){
+  if (s[k]== i){
+   lp2+= (state->suplng);
+   ++c;
+   if (++k==top) k=0;
+  }
+  else {
+   *(lp1++)= *(lp2++);
+   if ((state->suplng)==2) *(lp1++)= *(lp2++);
+   *(p++)= *(c++);
+  }
+ }
+     /* renumber branch pointers (subtract 1 if the crossing was after) */
+ (state->numcrs)-= top;
+ k= (state->numcrs);
+ c= (state->crsbuf)[k];
+ while (k--!=0){
+  j=5;
+  while (--j!=0){
+   c-=2;
+   i=top;
+   s= (state->clist)+i;
+   while (i--!=0){
+    if (*c> *--s) --*c;
+   }
+  }
+ }
+ return;
+}
+
+int ntc(long i,char *buf,lmpoly_state_t *state)
+{
+ long j;
+ int r;
+ char *p;
+ p=buf;
+ r=0;
+ if (i<0){
+  i= -i;
+  r=1;
+  *(p++)= '-';
+ }
+ if (i>999999999) j=1000000000;
+ else if (i>99999999) j=100000000;
+ else if (i>9999999) j=10000000;
+ else if (i>999999) j=1000000;
+ else if (i>99999) j=100000;
+ else if (i>9999) j=10000;
+ else if (i>999) j=1000;
+ else if (i>99) j=100;
+ else if (i>9) j=10;
+ else j=1;
+ while (j!=0){
+  ++r;
+  *(p++)= (i/j)%10+0x30;
+  j/=10;
+ }
+ *p='\n';
+ return (r);
+}
+
+void delpow(lmpoly_state_t *state)
+{
+ register long *lp1, *lp2, *lsp, *osp;
+ register short i, j, k, m, s, mpos;
+ short numlnk, mpow, u, v, x, y, z, order[2], prslen[2], pstlen[2];
+ lp1=(state->b);
+ if ((state->numlps)<4){
+  if ((state->numlps)==1){
+   *(lp1++)= -1;
+   *lp1= -1;
+  }
+  else if ((state->numlps)==3){
+   *(lp1++)= -1;
+   *(lp1++)= -3;
+   *(lp1++)= -3;
+   *lp1= -1;
+  }
+  else {
+   *(lp1++)= 1;
+   *(lp1++)= 2;
+   *lp1= 1;
+  }
+ }
+ else {
+  *lp1= 1;
+  (state->b)[1]= 4;
+  (state->b)[2]= 6;
+  k= (state->b)[3]= 4;
+  (state->b)[4]= 1;
+  while (k++!=(state->numlps)){
+   j=k;
+   (state->b)[j]=1;
+   while (--j!=0) (state->b)[j]+= (state->b)[j-1];
+  }
+  if (((state->numlps)&1)!=0) while (--k>=0) (state->b)[k]= -(state->b)[k];
+ }
+ *prslen= *pstlen= prslen[1]= pstlen[1]= mpos= mpow= 0;
+ osp= (state->b)+ (state->numlps)+1;
+ if ((state->poslnk)>(state->neglnk)){
+  order[1]= (state->poslnk);
+  *order= (state->neglnk);
+ }
+ else {
+  order[1]= (state->neglnk);
+  *order= (state->poslnk);
+  mpos=2;
+ }
+ z=2;
+ while (z--!=0){
+  numlnk=order[z];
+  mpos^=2;
+  while (numlnk--!=0){
+   m= ++mpow;
+   s=j=k= (state->numlps)+1;
+   u= *pstlen;
+   v= pstlen[1];
+   ++prslen[z];
+   *pstlen= x= *prslen;
+   pstlen[1]= y= prslen[1];
+   lp2= osp;
+   lp1= lp2+ j+ m;
+   if (z==0) lp1+= order[1];
+   osp= lp1;
+   while (j--!=0) *--lp1=0;
+   while (m--!=0){
+    i=j= s;
+    lsp= lp1;
+    if (mpos== (z|2) && y>0) *--lsp=0;
+    if (mpos!=0) lp1+=k;
+    else lp1+=i;
+    while (j--!=0) *--lp1-= *--lp2;
+    lp2+=i;
+    lp1= lsp;
+    *--lp1=0;
+    while (i--!=0) *--lp1= *--lp2;
+    lp1= lsp;
+    lsp= lp2;
+    lp2= lp1-1;
+    j=s;
+    while (j--!=0) *--lp1+= *--lp2;
+    --lp1;
+    if (x-->0) ++k;
+    if (y-->0){
+     ++k;
+     if (mpos==z) *--lp1=0;
+    }
+    if (u-->0) ++s;
+    if (v-->0) ++s;
+    lp2=lsp;
+   }
+  }
+ }
+}
+
+void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state)
+/*short ypow, xpow;
+long kcoeff;
+int mult, reach;*/
+{
+  register long *lp1, *lp2 = NULL, addon, *p; // Added init for lp2, JC.
+  register short i, j, k, numlnk, loops;
+  i= (state->poslnk);
+  k= (state->neglnk);
+  numlnk= i+k;
+  loops= (state->numlps)+ numlnk;
+  ypow+= XCNT-xpow-1+(state->lowx)+ 2*(k-i);
+  xpow-=(state->lowx)+loops;
+  p=(state->b);
+  while (numlnk-->=0){
+    if (reach!=0) lp2= (state->poly)[xpow+reach]+ypow-reach;
+    lp1= (state->poly)[xpow]+ ypow;
+    j= loops;
+    while (j-->=0){
+      addon= kcoeff* *(p++);
+      *lp1+= addon;
+      lp1+=2;
+      if (reach!=0){
+	*lp2+= mult*addon;
+	lp2+=2;
+      }
+    }
+    if (--i<0) --loops;
+    if (--k<0) --loops;
+    else ypow-=2;
+    xpow+=2;
+  }
+}
+
+void untwst(short l,short n,short i,short ex,lmpoly_state_t *state)
+/* short l, n, i, ex; */
+{
+ register unsigned char *pl, *pn;
+ register short g, h, m, k, d, e;
+ short j;
+ j= (state->sign)[i]; /* flip 3 crossing circuits */
+ k= j^ex;
+ ex^=4;
+ m= j^ex;
+ if ((state->sign)[l]-ex==2){
+  g= j^2;
+  h= g^4;
+  j= 6;
+ }
+ else {
+  h= j^2;
+  g= h^4;
+  j= 2;
+ }
+ pl= (state->crsbuf)[l];
+ pn= (state->crsbuf)[n];
+ d= pl[m];
+ e= pl[m|1];
+ pl[m]= pn[g];
+ pl[m|1]= pn[g|1];
+ if (d!=n){
+  pn[g]= d;
+  pn[g|1]= e;
+ }
+ else {
+  pn[g]= l;
+  pn[g|1]= k;
+ }
+ (state->crsbuf)[pl[m]][pl[m|1]]= l;
+ (state->crsbuf)[pl[m]][pl[m|1]|1]= m;
+ d= pn[h];
+ e= pn[h|1];
+ pn[h]= pl[k];
+ pn[h|1]= m= pl[k|1];
+ if (d!=l){
+  pl[k]= d;
+  pl[k|1]= e;
+ }
+ else {
+  pl[k]= n;
+  pl[k|1]= g;
+ }
+ (state->crsbuf)[pn[h]][m]= n;
+ (state->crsbuf)[pn[h]][m|1]= h;
+ h= pn[g|1];
+ (state->crsbuf)[pn[g]][h]= n;
+ (state->crsbuf)[pn[g]][h|1]= g;
+ d= pl[k];
+ e= pl[k|1];
+ (state->crsbuf)[d][e]= l;
+ (state->crsbuf)[d][e|1]= k;
+ pl[ex]= g= (state->crsbuf)[i][ex];
+ pl[ex|1]= h= (state->crsbuf)[i][ex|1];
+ (state->crsbuf)[g][h]= l;
+ (state->crsbuf)[g][h|1]= ex;
+ pn[j]= g= (state->crsbuf)[i][k];
+ pn[j|1]= h= (state->crsbuf)[i][k|1];
+ (state->crsbuf)[g][h]= n;
+ (state->crsbuf)[g][h|1]= j;
+}
+
+int conchk(lmpoly_state_t *state)
+{
+ register short i, j;
+ int vnum, vbrnch, top;
+ char str[20], local_cbuf[XCNT*2];
+ vnum=vbrnch= 0;
+ (state->lowx)= 1;
+ i=top= (state->numcrs)*2;
+ while (i>=0) local_cbuf[i--]=0;
+ i=0;
+ while (i!=top){
+  --(state->lowx);
+  while (local_cbuf[i]==0){
+   local_cbuf[i]=1;
+   i=vnum;
+   j=vbrnch;
+   vnum= (state->crsbuf)[i][j];
+   vbrnch= (state->crsbuf)[i][j|1];
+   if (vnum>=(state->numcrs)){
+    write (1,"error at crossing #",19);
+    write (1,str,ntc((long)(i+1),str,state));
+    write (1,", knot can't have a crossing #",30);
+    write (1,str,ntc((long)(vnum+1),str,state)+1);
+    return (1);
+   }
+   if ((state->crsbuf)[vnum][vbrnch]!=i || ((state->crsbuf)[vnum][vbrnch|1])!=j){
+    write (1,"the possible connection from branch ",36);
+    write (1,str,ntc((long)(i+1),str,state));
+    *str= 'a'+(j>>1);
+    write (1,str,1);
+    write (1," to branch ",11);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    *str= 'a'+(vbrnch>>1);
+    write (1,str,1);
+    write (1," is inconsistent\n",17);
+    return (1);
+   }
+   if (vbrnch==0){
+    write (1,"a-c part of crossing #",22);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    write (1," is oriented backwards\n",23);
+    write (1,"with respect to crossing #",26);
+    write (1,str,ntc((long)(i+1),str,state)+1);
+    return (1);
+   }
+   else if (vbrnch== ((state->sign)[vnum] & 6)){
+    write (1,"b-d part of crossing #",22);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    write (1," is oriented backwards\n",23);
+    write (1,"with respect to crossing #",26);
+    write (1,str,ntc((long)(i+1),str,state)+1);
+    return (1);
+   }
+   i= (vnum<<1) + ((vbrnch>>1)&1);
+   vbrnch^=4;
+  }
+  i=0;
+  while (local_cbuf[i]!=0) ++i;
+  vnum= i/2;
+  if ((i&1)!=0) vbrnch= (state->sign)[vnum] & 6;
+  else vbrnch=0;
+ }
+ return(0);
+}
+
+void mypause(int sig)
+{
+  //(state->restrt)=1;
+ //signal(SIGTERM,pause);  /* pause is now a system function */
+ signal(sig,mypause);
+}
+
+int bust(short tobust,short xpow,short ypow,lmpoly_state_t *state)
+/* short tobust, xpow, ypow; */
+{
+ register unsigned char *fastp, *c;
+ register long *lp1, *lp2;
+ register short i, j, m, k, l, n, *sp;
+ unsigned char *inbuf[XCNT], tsign[XCNT], *bstcrs;
+ int dir;
+ //long lngi;
+ bstcrs= (state->crsbuf)[tobust];
+ fastp=(state->sign);
+ c=tsign;
+ lp2= (long *) *(state->crsbuf);
+ lp1= (long *) ((state->buf)+(state->notbeg));
+ j=0;
+ while (j!=(state->numcrs)){
+  if (j==tobust) ++fastp;
+  *(c++)= *(fastp++);
+  inbuf[j++]= (unsigned char *) lp1;
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+ }
+ fastp= bstcrs;
+ l= (state->sign)[tobust]/2;
+ dir= 2-l;
+ m= fastp[7-l];
+ n= fastp[8-l];
+ j= fastp[3*l-3];
+ k= fastp[3*l-2];
+ inbuf[j][k]= m;
+ inbuf[j][k|1]= n;
+ inbuf[m][n]= j;
+ inbuf[m][n|1]= k;
+ m= fastp[5-l];
+ n= fastp[6-l];
+ j= fastp[3-l];
+ k= fastp[4-l];
+ inbuf[j][k]= m;
+ inbuf[j][k|1]= n;
+ inbuf[m][n]= j;
+ inbuf[m][n|1]= k;
+ k= (state->numcrs)-1;
+     /* squish crossing out of the list (tsign has already been squished) */
+ i= k-tobust;
+ lp1= (long *) inbuf[tobust];
+ lp2=lp1+(state->suplng);
+ while (i--!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+ }
+     /* renumber branch pointers (subtract 1 if the crossing was after) */
+ (state->notbeg)+= (state->numcrs)*8;
+ fastp= *inbuf;
+ while (++i!=k){
+  fastp[1]|= tsign[i]<<4;
+  j=5;
+  while (--j!=0){
+   if (*fastp>=tobust) --*fastp;
+   fastp+=2;
+  }
+ }
+ fastp= (state->buf)+(state->notbeg)-7;
+ *fastp= *(fastp-1)=0;
+ if (ypow+dir<0){
+  *fastp=1;
+  (state->buf)[(state->notbeg)-2]= -ypow-dir;
+ }
+ else (state->buf)[(state->notbeg)-2]= ypow+dir;
+ if ((xpow&512) ==0) (state->buf)[(state->notbeg)-8]=1;
+ *++fastp= (state->neglnk);
+ *++fastp= (state->poslnk);
+ *++fastp= (state->numlps);
+ *++fastp= xpow+1;
+ (state->buf)[(state->notbeg)-1]= i;
+ fastp= bstcrs;
+ sp= (short *) fastp;
+ j= *sp;
+ *sp= sp[l];
+ sp[l]= sp[2];
+ sp[2]= sp[l^2];
+ sp[l^2]= j;
+ (state->sign)[tobust]^=4;
+ (state->crsbuf)[*fastp][fastp[1]|1]=0;
+ (state->crsbuf)[fastp[2]][fastp[3]|1]=2;
+ (state->crsbuf)[fastp[4]][fastp[5]|1]=4;
+ (state->crsbuf)[fastp[6]][fastp[7]|1]=6;
+ return (dir*2);
+}
+
+void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state)
+/*unsigned char *c, *p;*/
+{
+ register short j, k, m, n;
+ register unsigned char *ccb;
+ k= *c;
+ j= c[1];
+ ccb= (state->crsbuf)[k]+j;
+ n= *ccb= *p;
+ m= ccb[1]= p[1];
+ ccb= (state->crsbuf)[n]+m;
+ *ccb= k;
+ ccb[1]= j;
+}
+
+void squish(short sqush,lmpoly_state_t *state)
+/* short sqush; */
+{
+ register short i, j, tosqsh;
+ register unsigned char *p, *c;
+ register long *lp1, *lp2;
+       /* squish crossing out of the list */
+ tosqsh= sqush;
+ j= --(state->numcrs)-tosqsh;
+ lp1= (long *) (state->crsbuf)[tosqsh];
+ lp2=lp1+(state->suplng);
+ p= (state->sign)+tosqsh;
+ c=p+1;
+ while (j--!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+    /* renumber branch pointers (subtract 1 if the crossing was after) */
+ i= (state->numcrs);
+ p= (state->crsbuf)[i];
+ while (i--!=0){
+  j=5;
+  while (--j!=0){
+   p-=2;
+   if (*p>=tosqsh) --*p;
+  }
+ }
+}
+
+void sqush2(short n,short g,lmpoly_state_t *state)
+/* short n, g; */
+{
+ long *lp1, *lp2;
+ register unsigned char *p, *c;
+ register short m, i, j;
+     /* squish crossings out of the list */
+ i= n;
+ m= g;
+ if (m>i){
+  j=m;
+  m=i;
+  i=j;
+ }
+ lp1= (long *) (state->crsbuf)[m];
+ lp2=lp1+(state->suplng);
+ p=(state->sign)+m;
+ c=p+1;
+ j= i-m;
+ while (--j!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+ lp2+=(state->suplng);
+ ++c;
+ j= (state->numcrs)-i;
+ (state->numcrs)-=2;
+ while (--j!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+    /* renumber branch pointers (subtract 1 if the crossing was after) */
+ p= (state->crsbuf)[(state->numcrs)];
+ n= (state->numcrs);
+ while (n--!=0){
+  j=5;
+  while (--j!=0){
+   p-=2;
+   if (*p>=i) --*p;
+   if (*p>=m) --*p;
+  }
+ }
+}
+
+void triple(short m,short i,unsigned char *p,lmpoly_state_t *state)
+/*short m, i;
+  unsigned char *p; */
+{
+ register unsigned char *crsi, *crsk;
+ register short j, d, e, n, h, k;
+ crsi= p;
+ n= m^4;
+ k= crsi[m];
+ crsk= (state->crsbuf)[k];
+ j= crsi[m|1];
+ d= crsk[j]= crsi[n];
+ e= crsk[j|1]= crsi[n|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ d= crsi[m]= crsk[j];
+ e= crsi[m|1]= crsk[j|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= m;
+ crsi[n]= k;
+ crsi[n|1]= j;
+ crsk[j]= i;
+ crsk[j|1]= n;
+ j^=2;
+ n= crsk[j];
+ h= crsk[j|1]^4;
+ d= crsk[j]= (state->crsbuf)[n][h];
+ e= crsk[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ n= crsk[j];
+ h= crsk[j|1]^4;
+ d= crsk[j]= (state->crsbuf)[n][h];
+ e= crsk[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j=m^2;
+ n= crsi[j];
+ h= crsi[j|1]^4;
+ d= crsi[j]= (state->crsbuf)[n][h];
+ e= crsi[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ m= crsi[j];
+ h= crsi[j|1]^4;
+ d= crsi[j]= (state->crsbuf)[m][h];
+ e= crsi[j|1]= (state->crsbuf)[m][h|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= j;
+ sqush2(n,m,state);
+}
+
+int tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state)
+/* short h, *bstlst, *dspair, *skflag; */
+{
+ register short d, g, i, j, m, length, *q, *sp;
+ register unsigned char *p, *tp = NULL, *vp; // Added init for tp. JC
+ short k = 0, n, lngsum, badcrs = 0, vertex, lngpos = 0, i1, i2, i3, j1, j2, j3;
+ sp=q= (state->tt);  /* # of overs and unders were passed in through *(state->tt) and [2] */
+ lngsum= n= 0;
+ if (*(state->tt) > (state->tt)[2]) n=2;
+ else if (*(state->tt) == (state->tt)[2]) lngsum=1;   /* need to test BOTH overs & unders */
+ vp= (state->clist);
+ vertex=h;
+ while (vertex-->0) *(sp++)= *(vp++);   /* make a working copy of (state->clist) */
+ i= h-1;
+ if ((h&1)!=(length=0)) vertex= (state->clist)[i];
+ else {
+  if ((state->donlnk)[XCNT]==0){   /* if my check-off list is now invalid */
+   d= (state->numcrs);             /* re-set it all to 0 */
+   while (d-->0) (state->donlnk)[d]= 0;
+   (state->donlnk)[XCNT]=1;
+  }
+  if (((state->donlnk)[(state->clist)[i]]&((state->t)[i]+2))!=0) return(0);
+ }
+ m=j= h/2;
+ *sp= -1;
+ p=state->t;
+ while (j-->length){
+  i=2;
+  while (*q==1024){
+   ++q;
+   ++p;
+  }
+  d= *q;
+  if (*(p++)==0) i+= (state->sign)[d];
+  g= (state->crsbuf)[d][i&6];
+  sp= ++q;
+  while (*sp>=0 && *sp!=g) ++sp;
+  if (*sp<0) j= -10;
+  else if (*sp==vertex) length= -1;
+  else *sp= 1024;
+ }
+ if (j== -11){
+  d=h;
+  sp=q= (state->tt);
+  vp= (state->clist);
+  while (d-->0) *(sp++)= *(vp++);
+  length=0;
+  p=state->t;
+  while (m-->length){
+   i=6;
+   while (*q==1024){
+    ++q;
+    ++p;
+   }
+   d= *q;
+   if (*(p++)==0) i+= (state->sign)[d];
+   g= (state->crsbuf)[d][i&6];
+   sp= ++q;
+   while (*sp>=0 && *sp!=g) ++sp;
+   if (*sp<0) m= -10;
+   else if (*sp==vertex) length= -1;
+   else *sp= 1024;
+  }
+  j-=m;
+ }
+ if (vertex< (length=lngsum=d=m= 0)){  /* if a link */
+  tp=p= state->t;
+  while ((n^*(p++))==0) ++d;  /* find first bad crossing and move it to the */
+  vp= (state->clist)+d;                /* front so that (state->clist) cannot break a string */
+  --p;                        /* of good crossings in a link from */
+  sp= (state->tt);                     /* (state->clist)[h-1] to (state->clist)[0] */
+  i=m= h-d;
+  while (m-->0){
+   (state->donlnk)[*vp]|= *(p++)+2;  /* also check off all list elements to assure */
+   *(sp++)= *(vp++);        /* this link never comes to tstcir again with */
+  }                         /* a different beginning crossing */
+  m=d;
+  vp= (state->clist);
+  while (m-->0){
+   (state->donlnk)[*vp]|= *tp+2;
+   *(sp++)= *vp;
+   *(vp++)= *(tp++);
+  }
+  p=state->t;
+  while (i-->0) *(p++)= *(tp++);
+  vp= (state->clist);
+  while (d-->0) *(p++)= *(vp++);
+  d=m= 0;
+ }
+ else {
+  sp= (state->tt);
+  vp= (state->clist);
+  i= h;
+  while (i-->0) *(sp++)= *(vp++);
+ }
+ p=state->t;
+ g= h|1;         /* find the longest good string & put in "length" */
+ (state->t)[g]= (state->t)[g-1];   /* also, the longest with only 1 bad crossing in "lngsum" */
+ (state->t)[g-1]= n^2;    /* badcrs is the bad crossing in lngsum */
+ while (++i<g){
+  if ((n^*(p++)) ==0) ++d;
+  else {
+   if (d>=length){
+    length=d;
+    k= i-d;
+   }
+   if (m+d>=lngsum){
+    lngsum= m+d+1;
+    if (d==0) tp= p-3;  /* tp points to a generic good crossing in lngsum */
+    else tp= p-2;
+    if (d!= (lngpos=i)) badcrs= (state->tt)[i-d-1];
+    else badcrs= (state->tt)[i];
+   }
+   m=d;
+   d=0;
+  }
+ }
+ i= h/2;
+ if (vertex>=0 && length>=i){ /* can this circuit untwist its vertex? */
+   if (k==0 && (*(state->t)^*p)!=0) return (skinny(1,h,(short) 0,state));
+   else if (k+length+1==h && ((state->t)[k]^*p)==0) return (skinny(1,h,i,state));
+ }
+ if (j==0 && length>=i){     /* circuit is not skinny, and can be skinnied */
+  if (vertex>= (i1=0) && length==i){
+   m= k+i;
+   *(p-1)= *p;     /* infinite loops happen when the loose strand is shared */
+   d= (state->tt)[m-1];        /* between 2 intersecting circuits -- skflag prevents */
+   while (m>=k){           /* looping, allows me to skinny once per bust!   */
+    vp= (state->crsbuf)[(state->tt)[m]];
+    if ((state->t)[m]!=0) j=2;
+    if (vp[j]==d || vp[j^4]==d) m=i1= -1;  /* possible inf. loop circuit! */
+    else j=0;
+    m-=i;
+    if (k==0) d= (state->tt)[h-1];
+    else d=(state->tt)[k-1];
+   }
+  }
+  if (i1== (j=0)) return (skinny(0,h,k,state)); /* OK to skinny it! */
+  if (*skflag==0){
+   *skflag=1;
+   return (skinny(0,h,k,state)); /* OK to do ONE skinny */
+  }
+ }
+ if (lngsum>=i){
+  if (lngsum == h-2) lngsum=h;   /* a link w/only 2 crossings vanishes! */
+  d= (lngsum-i)*8;  /* and find all the extra benefits of badcrs */
+  if (j==0) ++d;    /* give one point for doing a skinny */
+  if (vertex>=0){
+   if (lngpos==lngsum && (*tp^*p)!=0) d+=4;
+   else if (lngpos+1==h && (*tp^*p)==0) d+=4;
+   else if (lngsum+1==h) d+=4;
+  }
+  if (d==8 && length==lngsum-1) d=0; /* this is really just a fake bigon */
+  if (j==0 && d!=0 && (state->numcrs)+ 2*(i-lngsum)>11) d+=2;
+  if ((k=lngpos-lngsum)!= (m=0) && d!=0){
+   if ((state->t)[k]!=0) m= (state->sign)[(state->tt)[k]];
+   if ((state->crsbuf)[(state->tt)[k]][m] == (state->tt)[k-1]) ++d;
+   if (k!=1 && ((state->t)[k-2]^(state->t)[k-1])!=0) ++d;
+  }
+  if (lngpos+1 != g && d!=0){
+   if ((state->t)[lngpos]!= (m=0)) m= (state->sign)[(state->tt)[lngpos]];
+   if ((state->crsbuf)[(state->tt)[lngpos]][m] == (state->tt)[lngpos-1]) ++d;
+   if (lngpos+2 !=g && ((state->t)[lngpos+1]^(state->t)[lngpos])!=0) ++d;
+  }
+  if (d<6 && j==0){    /* min. one point for making skinny circuits */
+   if (bstlst[badcrs]==0) bstlst[badcrs]= *dspair= 1;
+  }
+  else {
+   *dspair=1;
+   (state->donlnk)[badcrs]=0;  /* from badcrs's perspective, link may be better */
+   if (bstlst[badcrs]<0){
+    if (bstlst[badcrs]> -8-d) bstlst[badcrs]= -8-d;
+   }
+   else if (bstlst[badcrs]<d) bstlst[badcrs]=d;
+  }
+ }
+ else {
+  k= h/4;
+  if (*dspair<k) k= *dspair;
+  m=1;
+  while (m++<k){
+   tp=state->t;
+   *(state->gapsto)=j= 0;
+   d= m+1;
+   while (--d>0){
+    while ((*(tp++)^n) ==0) ++j;
+    (state->gapsto)[d]= j++;
+   }
+   while (j<g){
+    while ((*(tp++)^n) ==0) ++j;
+    length= (j-(state->gapsto)[d]-i)*4 +2;
+    if (length>0 && (m<*dspair || (m== *dspair && length>=dspair[1]))){
+     if (m<*dspair || length>dspair[1]) dspair[3]=0;
+     *dspair=m;
+     dspair[1]= length;
+     length=lngpos= 0;
+     if (d!=m) lngpos= d+1;
+     j1= j;
+     j2= (state->gapsto)[lngpos];
+     h=m;
+     while (h-->0){
+      if (++lngpos>m) lngpos=0;
+      vertex= (state->tt)[j2];
+      j3= (state->gapsto)[lngpos];
+      lngsum= j1-j3;
+      p= (state->crsbuf)[vertex];
+      i1= (state->sign)[vertex];
+      i2= p[i1];
+      i3= p[i1|1];
+      i1^=4;
+      if ((state->crsbuf)[i2][(i3+i1)&6]== p[4]){
+	//if ((p[5]^i3&2) !=0) lngsum= -1 -lngsum;
+	/* According to wikipedia, the & should come first, so this is */
+	if ((p[5]^(i3&2)) !=0) lngsum= -1 -lngsum;
+       else lngsum= -10 -lngsum;
+      }
+      i2= p[i1];
+      i3= p[i1|1];
+      if ((state->crsbuf)[i2][(i3+i1)&6]== *p){
+	if ((p[1]^(i3&2)) !=0){  // The same is true here
+        if (lngsum<0) lngsum-=5;
+        else lngsum= -1 -lngsum;
+       }
+       else if (lngsum<0) lngsum-= 10;
+       else lngsum= -10 -lngsum;
+      }
+      if (lngsum<0){
+       if (length>lngsum){
+        length= lngsum;
+        badcrs= vertex;
+       }
+      }
+      else if (length>=0 && length<lngsum){
+       length= lngsum;
+       badcrs= vertex;
+      }
+      j1=j2;
+      j2=j3;
+     }
+     i1= dspair[3];
+     if (length<0){
+      if (i1>length){
+       dspair[2]= badcrs;
+       dspair[3]= length;
+      }
+     }
+     else if (i1>=0 && i1<length){
+      dspair[2]= badcrs;
+      dspair[3]= length;
+     }
+     k=0;
+    }
+    (state->gapsto)[d--]= j++;
+    if (d<0) d=m;
+   }
+  }
+ }
+ return(0);
+}
+
+int skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state)
+/* short lencir, lngpos;
+   int twist; */
+{
+ register short a, b, g, n, vnum, dir, *c;
+ register unsigned char *p, *q, *cp;
+ short i, j, k, m, last, f, v2; //*sp;
+ vnum= -1;     /* assume circuit is a link */
+ dir= 6;       /* and I will be placing loose strand LEFT of fixed strand */
+ if ((lencir&1)!= (b=0)){
+  vnum= (state->tt)[lencir-1];                /* if not a link */
+  if (((state->t)[lencir-1]=(state->t)[lencir]) ==0) b= (state->sign)[vnum];
+    /* tstcir wrecks (state->t)[lencir-1] on non-links but saves a copy! */
+ }
+ if (vnum>=0){
+  g=vnum;      /* SET DIR PROPERLY!! */
+  while (b>=0){        /* if VERTEX is left of fixed strand, set dir RIGHT */
+   p=(state->crsbuf)[g]+b;  /* there is also a special case if I am untwisting */
+   g= *p;
+   b= *(p+1)^4;  /* walk out from the vertex -- do I run into the circuit? */
+   a=lencir;
+   c= (state->tt);
+   while (a>0 && *(c++)!=g) --a;
+   if (a>0){
+    if (*--c!=vnum){
+     if (b==0) dir= (state->sign)[*c]^4;     /* yes */
+     else dir=b;
+    }
+    else {
+     g= *(state->tt);     /* no -- I ran back into the vertex again */
+     b=6;              /* trace the first left region of the circuit */
+     if (*(state->t)==0) b=(state->sign)[g]-2;
+     n= (state->tt)[lencir-2];  /* does it connect to the other side of the circuit? */
+     while (g!=vnum && g!=n){
+      p= (state->crsbuf)[g]+b;
+      g= *p;
+      b= (*(p+1)+2)&6;
+     }
+     if (g==vnum) dir=2;  /* no -- vertex is left of fixed strand */
+    }
+    b= -1;
+   }
+  }
+  if (twist!=0) dir^=4;
+ }
+ a=j= lencir/2;   /* to move strand, remove it - then reinsert crossings by */
+ p= (state->clist);       /* hand.  Put moveable crossings in (state->clist) & call rmcir */
+ c= (state->tt)+lngpos;
+ while (a-->0) *(p++)= *(c++);
+ --(state->numlps);                   /* rmcir adds a (state->numlps) for fun */
+ rmcir (j,(short) 0,a,(state->t)+lngpos,1,state);
+ i=k= lngpos+j;
+ if (vnum>=0){
+  --lencir;
+  if (lngpos==0 && twist==0) twist= -1;
+ }
+ else if (i==lencir) i=0;
+ if (twist> (m=b= 0) && lngpos!=0){
+  if ((state->t)[lencir]==0) b= (state->sign)[vnum];
+  last= (state->crsbuf)[vnum][b];   /* set last properly if I am untwisting vertex */
+  f= (state->crsbuf)[vnum][b|1];
+ }
+ else {
+  last= (state->tt)[i];  /* set last to automatically hook up one of the bigon ends */
+  f= 4;
+  if ((state->t)[i]==0) f= (state->sign)[last]^4;
+ }
+ if ((state->t)[--k]==0) m=4;
+ while (j-->0){
+  if (i==lencir) i=0;
+  g=dir;
+  vnum= (state->tt)[i];   /* vnum is the crossing on the fixed strand */
+  b= (state->sign)[vnum];
+  if ((state->t)[i++]==0) g+=b;
+  else b^=4;
+  p= (state->crsbuf)[last]+f;  /* reconnect the loose end from the last loop to the */
+  *(p++)= n= (state->tt)[k--];  /* present n */
+  q= (state->crsbuf)[n];   /* n is the crossing on the loose strand - q points to it */
+  (state->sign)[n]= a= b^m;   /* this calculation for (state->sign)[n] is a 2 step trick */
+  if (m==0){
+   a=0;
+   b=dir;
+  }
+  else b^=dir;
+  *p=a;
+  q[a]= last;   /* reconnect last going FOREWARDS along loose strand from n */
+  q[a+1]=f;
+  f= a^4;
+  g&=6;
+  cp= (state->crsbuf)[vnum]+g;
+  v2= *cp;             /* v2 is one step out the dir branch of fixed strand */
+  *(cp++)= last= n;
+  a= *cp;    /* reconnect vnum to n instead (insert n) */
+  *cp=b;
+  p= q+b;
+  *(p++)= vnum;   /* mutual from n to vnum */
+  *p=g;
+  b^=4;
+  p= (state->crsbuf)[v2]+a;  /* insert n from v2 side */
+  *(p++)= n;
+  *p=b;
+  p= q+b;     /* mutual connect from n */
+  *(p++)= v2;
+  *p=a;
+ }
+ if (twist!=0){       /* reconnect the loose end properly */
+  vnum=(state->tt)[lencir];
+  if ((state->t)[lencir]!= (dir=b=0)) dir=b=(state->sign)[vnum];
+  if (twist>0){
+   p= (state->crsbuf)[vnum];
+   if (lngpos==0){
+    n= p[b^4];
+    b= p[b^5];
+    if ((state->t)[lencir]== (dir=0)) dir=(state->sign)[vnum];
+   }
+   else {
+    n= (state->tt)[--i];
+    if ((state->t)[i]== (b=0)) b=(state->sign)[n];
+   }
+   a= p[dir];
+   g= p[dir|1];
+   k= p[dir^5];
+   dir= p[dir^4];
+   (state->crsbuf)[a][g]= dir;
+   (state->crsbuf)[a][g|1]=k;
+   (state->crsbuf)[dir][k]=a;
+   (state->crsbuf)[dir][k|1]=g;
+  }
+  else twist=0;
+ }
+ else if ((state->t)[--i]== (b=0)) b= (state->sign)[(state->tt)[i]];
+ if (twist==0) n= (state->tt)[i];
+ (state->crsbuf)[last][f]= n;
+ (state->crsbuf)[last][f|1]= b;
+ (state->crsbuf)[n][b]= last;
+ (state->crsbuf)[n][b|1]= f;
+ if (twist!=0) squish(vnum,state); /* if I untwisted vertex, now eliminate it */
+ return(1);
+}
-- 
2.43.0


From 9a75db18f38b7ac62b4b7ffdee4085675054b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:37 +0000
Subject: [PATCH 030/116] fix: plc_set_constraint must not merge constraints of
 different components

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 69ff4f1..8461a5b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -506,6 +506,7 @@ static inline void overrun_check(plc_constraint *cst) {
   }
   /* Now combine adjacent constraints if possible */
   while (cst->next != NULL &&
+         cst->next->cmp == cst->cmp &&
          cst->next->vert == cst->vert+cst->num_verts &&
          cst->next->kind == cst->kind &&
          cst->kind != fixed &&
-- 
2.43.0


From 180141b0d560cc52bce54e10f5e4b7c266af41a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:37 +0000
Subject: [PATCH 031/116] fix: plc_s counted the folded-back edge of open
 components

---
 src/plCurve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 8461a5b..f9f4e79 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -235,7 +235,8 @@ double plc_s(const plCurve * const L, const int cmp, const int vert)
 
   for(c = 0;c < cmp;c++) {
 
-    for(v = 1;v <= L->cp[c].nv; v++) {
+    /* An open component has no edge from its last vertex. */
+    for(v = 1;v < (L->cp[c].open ? L->cp[c].nv : L->cp[c].nv+1); v++) {
 
       d = plc_M_sq_dist(L->cp[c].vt[v-1],L->cp[c].vt[v])  /* ok not to ; */
       s += sqrt(d);	
-- 
2.43.0


From aee141a073e8745a0bdc5fdb6007be58a11e1ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:37 +0000
Subject: [PATCH 032/116] fix: plc_totalcurvature counted undefined angles of
 open components

---
 src/plCurve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index f9f4e79..6f59347 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1682,6 +1682,8 @@ double plc_totalcurvature(const plCurve * const L,
 			  plc_vect_diff(L->cp[cp].vt[vt]  ,L->cp[cp].vt[vt-1]),
 			  &ok);
 
+	if (!ok) { angle = 0; }
+
 	if (component_tc != NULL) {
   
 	  component_tc[cp] += angle;
-- 
2.43.0


From 34e97627ba14277f597d219c7614cbb6834e531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:37 +0000
Subject: [PATCH 033/116] fix: plc_turning_angle left *ok unset at the ends of
 open components

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 6f59347..a893c78 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1596,6 +1596,7 @@ double plc_turning_angle(plCurve * const L, const int cp, const int invt, bool *
   
   if (L->cp[cp].open && (vt <= 0 || vt >= L->cp[cp].nv-1)) { // Addressing past ends of open curve yields zero
 
+    if (ok != NULL) { *ok = true; }
     return 0;
 
   } 
-- 
2.43.0


From 7602c1867127c176bb384c2337584a29d4b13e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:37 +0000
Subject: [PATCH 034/116] fix: plc_write lost constraint precision and
 truncated long vertex lines

---
 src/plCurve.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index a893c78..1a8eb06 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -801,8 +801,8 @@ void plc_write(FILE *outfile, plCurve * const L) {
   int i,j;                  /* Counters for the for loops */
   int nverts = 0;           /* Total number of vertices of all components */
   int colors = 0;           /* Total number of colors of all components */
-  char outstr[80] = "";     /* So we can wrap the vertex lines */
-  char outstr2[80] = "";    /* Again for wrapping */
+  char outstr[128] = "";    /* Room for 3 doubles and a constraint number */
+  char outstr2[96] = "";    /* Room for 3 doubles */
   int cst_num;              /* This constraint */
   int **cst_nums = NULL;    /* All constraint numbers */
   plc_constraint *cst;  /* Current constraint */
@@ -871,13 +871,13 @@ void plc_write(FILE *outfile, plCurve * const L) {
                                 cst->num_verts, cst_list);
       cst_num++;
       if (cst->kind == fixed) {
-        fprintf(outfile, "# Constraint %d Fixed %g %g %g\n", cst_num,
+        fprintf(outfile, "# Constraint %d Fixed %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]));
       } else if (cst->kind == line) {
-        fprintf(outfile, "# Constraint %d Line %g %g %g %g %g %g\n", cst_num,
+        fprintf(outfile, "# Constraint %d Line %.16g %.16g %.16g %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]), plc_M_clist(cst->vect[1]));
       } else if (cst->kind == plane) {
-      fprintf(outfile, "# Constraint %d Plane %g %g %g %g\n", cst_num,
+      fprintf(outfile, "# Constraint %d Plane %.16g %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]), cst->vect[1].c[0]);
       }
     }
-- 
2.43.0


From c61cedd73b5cefc07a9c146796c9172b11509b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:14 +0000
Subject: [PATCH 035/116] fix: plc_read accepted files without the VECT keyword

---
 src/plCurve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 1a8eb06..71c3d5a 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1181,6 +1181,7 @@ void plc_fix_wrap(plCurve * const L) {
   plc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
+  int found_vect = 0;
 
   assert(file != NULL);
   assert(error_str_len > 0);
@@ -1188,7 +1189,7 @@ void plc_fix_wrap(plCurve * const L) {
   *error_num = 0;
 
   /* First, we check for the 'VECT' keyword. */
-  if (fscanf(file," VECT ") == EOF) {
+  if (fscanf(file," VECT%n",&found_vect) == EOF || found_vect == 0) {
     *error_num = PLC_E_NO_VECT;
     (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't find VECT keyword.\n");
-- 
2.43.0


From 188f40654c6fa39415ddfdcfe81334cbdf3645e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:14 +0000
Subject: [PATCH 036/116] fix: plc_read aborted on illegal vertex or color
 counts

---
 src/plCurve.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 71c3d5a..b36cc5c 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -42,6 +42,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 #include <time.h>
 
 /* Utility routines */
@@ -1237,6 +1238,16 @@ void plc_fix_wrap(plCurve * const L) {
     }
     /* A negative number of vertices indicates a CLOSED component. */
     open[i] = (nvarray[i] >= 0);
+    if (nvarray[i] == 0 || nvarray[i] > INT_MAX-2 || nvarray[i] < -(INT_MAX-2)) {
+      *error_num = PLC_E_BAD_CVRT_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Component %d has an illegal number of vertices (%d).\n",
+          i,nvarray[i]);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
     nvarray[i] = abs(nvarray[i]);
   }
   /*@=loopexec@*/
@@ -1254,6 +1265,16 @@ void plc_fix_wrap(plCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (ccarray[i] < 0 || ccarray[i] > nvarray[i]) {
+      *error_num = PLC_E_BAD_CC;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Component %d has %d vertices but %d colors.\n",
+          i,nvarray[i],ccarray[i]);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
-- 
2.43.0


From 92ea0a23d0998f908146d86371a53635d29463c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:14 +0000
Subject: [PATCH 037/116] fix: plc_read used constraint numbers without
 checking them

---
 src/plCurve.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index b36cc5c..4cf2353 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1331,11 +1331,22 @@ void plc_fix_wrap(plCurve * const L) {
         "plc_read: Couldn't parse constraint number from '%s'.\n",place);
       return NULL;
     }
-    if (cst_num+1 > (int)cst_list_len) {
-      cst_list_len = (size_t)(10*((cst_num+11) % 10)); /* Allocate by 10s */
-      assert(cst_list->next == NULL);
-      cst_list = realloc(cst_list,cst_list_len*sizeof(plc_constraint));
-      assert(cst_list != NULL);
+    if ((size_t)cst_num+1 > cst_list_len) {
+      size_t new_len = 10*(((size_t)cst_num+11)/10); /* Allocate by 10s */
+      plc_constraint *new_list = calloc(new_len,sizeof(plc_constraint));
+      if (new_list == NULL) {
+        plc_free(L);
+        free(cst_list);
+        free(comment);
+        *error_num = PLC_E_BAD_CST_NUM;
+        (void)snprintf(error_str,error_str_len,
+          "plc_read: Constraint number %d is too large.\n",cst_num);
+        return NULL;
+      }
+      memcpy(new_list,cst_list,cst_list_len*sizeof(plc_constraint));
+      free(cst_list);
+      cst_list = new_list;
+      cst_list_len = new_len;
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
@@ -1455,9 +1466,22 @@ void plc_fix_wrap(plCurve * const L) {
             "plc_read: Bad numbers for constraint %d.\n",cst_num);
           return NULL;
         }
+        if (cst_num < 0 || (size_t)cst_num >= cst_list_len ||
+            (cst_num > 0 && cst_list[cst_num].kind == unconstrained)) {
+          plc_free(L);
+          assert(cst_list->next == NULL);
+          free(cst_list);
+          free(comment);
+          *error_num = PLC_E_BAD_CST_NUM;
+          (void)snprintf(error_str,error_str_len,
+            "plc_read: Vertex %d of component %d has undefined constraint %d.\n",
+            j,i,cst_num);
+          return NULL;
+        }
       }
       free(comment);
-      if (cst_num != prev_cst_num) {
+      /* A fixed constraint applies to only one vertex at a time. */
+      if (cst_num != prev_cst_num || cst_list[cst_num].kind == fixed) {
         if (prev_cst_num != 0) {
           plc_set_constraint(L, i, prev_cst_vert, j - prev_cst_vert,
               cst_list[prev_cst_num].kind, cst_list[prev_cst_num].vect);
-- 
2.43.0


From 3a136a0d08a08d4f21659ca4cd1c30de661605d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:14 +0000
Subject: [PATCH 038/116] fix: adding or dropping a component left constraints
 and symmetries on the wrong components

---
 src/plCurve.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 4cf2353..01414c9 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2081,6 +2081,7 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
                       const plc_vector * const vt,
            /*@null@*/ const plc_color * const clr) {
   plc_strand *cp;
+  plc_constraint *cst;
 
   assert(L != NULL);
   assert(nv >= 1);
@@ -2090,6 +2091,14 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
   assert(add_as >= 0);
   assert(add_as <= L->nc);
 
+  /* The symmetry group doesn't know about the new component, so we lose it. */
+  plc_symmetry_group_free(&(L->G));
+
+  /* Constraints on the components after the new one move up with them. */
+  for (cst = L->cst; cst != NULL; cst = cst->next) {
+    if (cst->cmp >= add_as) { cst->cmp++; }
+  }
+
   L->nc++;
   /*@-compdestroy@*/
   L->cp = realloc(L->cp,L->nc*sizeof(plc_strand));
@@ -2126,12 +2135,29 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
 
 void plc_drop_component(plCurve *L, const int cmp) {
   int cnt;
+  plc_constraint **cst_pptr, *cst;
 
   assert(L != NULL);
   assert(cmp >= 0);
   assert(cmp < L->nc);
   assert(L->nc > 0);
 
+  /* The symmetry group refers to the component, so we lose it. */
+  plc_symmetry_group_free(&(L->G));
+
+  /* Remove the constraints on cmp, renumber those on later components. */
+  cst_pptr = &L->cst;
+  while ((*cst_pptr) != NULL) {
+    cst = *cst_pptr;
+    if (cst->cmp == cmp) {
+      *cst_pptr = cst->next;
+      free(cst);
+    } else {
+      if (cst->cmp > cmp) { cst->cmp--; }
+      cst_pptr = &(cst->next);
+    }
+  }
+
   L->nc--;
   L->cp[cmp].vt--;
   free(L->cp[cmp].vt);
-- 
2.43.0


From cc907c702f6efab9395aa1d0c346183066c06056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:14 +0000
Subject: [PATCH 039/116] fix: plc_resize_colorbuf left new colors
 uninitialized

---
 src/plCurve.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 01414c9..de06c24 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2221,10 +2221,18 @@ void plc_resize_colorbuf(plCurve *L,const int cp, const int cc)
 		present. We keep what we get under realloc, as we have
 		no meaningful way to downsample color information. */
 
+      int oldcc = L->cp[cp].cc;
+
       L->cp[cp].cc = cc;
       L->cp[cp].clr = realloc(L->cp[cp].clr,sizeof(plc_color)*cc);
       assert(L->cp[cp].clr != NULL);
 
+      for(i=oldcc;i<cc;i++) { /* Any new space starts off blank */
+
+	L->cp[cp].clr[i] = plc_build_color(0,0,0,0);
+
+      }
+
       return;
 
     }
-- 
2.43.0


From b3be0fda500284ac21f600d72f6899521bf66677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:14 +0000
Subject: [PATCH 040/116] fix: plc_double_verts wrote past the color buffer of
 uncolored curves and lost the last color

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index de06c24..2305a57 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2465,9 +2465,9 @@ plCurve *plc_double_verts(plCurve *L)
 
       newL->cp[cmp].clr[0] = L->cp[cmp].clr[0];
 
-    } else {
+    } else if (newL->cp[cmp].cc > 1) {
 
-      for(vt=0;vt<L->cp[cmp].nv-1;vt++) {
+      for(vt=0;vt<L->cp[cmp].nv;vt++) {
 
 	newL->cp[cmp].clr[2*vt+1] = newL->cp[cmp].clr[2*vt] = L->cp[cmp].clr[vt];
 	
-- 
2.43.0


From 140a56f4a8c53369c3d1a7716e1da82b36fe8f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:11 +0000
Subject: [PATCH 041/116] fix: plc_delete_arc left more colors than vertices,
 on the wrong vertices, and a stale symmetry group

---
 src/plCurve.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 2305a57..09f7d0b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2979,6 +2979,30 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
   }
 
     
+  /* Give newcp (whose vertices are those of oldcp, starting at first) the colors of these vertices. */
+  static void cut_colors(plc_strand *newcp, const plc_strand *oldcp, int first)
+
+  {
+    int vt;
+
+    if (oldcp->cc == oldcp->nv) { /* Each vertex had its own color */
+
+      for(vt=0;vt<newcp->nv;vt++) {
+
+	newcp->clr[vt] = oldcp->clr[(vt + first) % oldcp->nv];
+
+      }
+
+      newcp->cc = newcp->nv;
+
+    } else if (newcp->cc > newcp->nv) {
+
+      newcp->cc = newcp->nv;
+
+    }
+
+  }
+
   plCurve *plc_delete_arc(plCurve *L,int cp,int vt1, int vt2)
 
   /* Delete a subarc from a component of a plCurve between vt1 and vt2    */
@@ -2995,6 +3019,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
     newL = plc_copy(L);
     plc_remove_all_constraints(newL);  
+    plc_symmetry_group_free(&(newL->G)); /* The symmetries of L don't apply any more */
 
     if (L->cp[cp].open) { /* We're going to split or truncate open component */
 
@@ -3022,6 +3047,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 	  }
 	  
 	  newL->cp[cp].nv = L->cp[cp].nv - (vt2+1);
+	  cut_colors(&(newL->cp[cp]),&(L->cp[cp]),vt2+1);
 	  plc_fix_wrap(newL);
 
 	  return newL;
@@ -3031,14 +3057,22 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
       } else if (vt2 >= L->cp[cp].nv-1) { /* Cut off the end of the component. */
 
 	newL->cp[cp].nv = vt1;
+	cut_colors(&(newL->cp[cp]),&(L->cp[cp]),0);
 	plc_fix_wrap(newL);
 
 	return newL;
 
       } else { /* vt1 > 0, vt2 < L->cp[cp].nv-1, and L->cp[cp].open == true */
 
-	plc_add_component(newL,cp+1,L->cp[cp].nv-(vt2+1),true,0,&(L->cp[cp].vt[vt2+1]),NULL);
+	if (L->cp[cp].cc == L->cp[cp].nv) { /* Per-vertex colors stay with their vertices */
+	  plc_add_component(newL,cp+1,L->cp[cp].nv-(vt2+1),true,L->cp[cp].nv-(vt2+1),
+			    &(L->cp[cp].vt[vt2+1]),&(L->cp[cp].clr[vt2+1]));
+	} else {
+	  plc_add_component(newL,cp+1,L->cp[cp].nv-(vt2+1),true,(L->cp[cp].cc == 1) ? 1 : 0,
+			    &(L->cp[cp].vt[vt2+1]),L->cp[cp].clr);
+	}
 	newL->cp[cp].nv = vt1;
+	cut_colors(&(newL->cp[cp]),&(L->cp[cp]),0);
 	plc_fix_wrap(newL);
 
 	return newL;
@@ -3064,6 +3098,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 	  newL->cp[cp].vt[vt] = L->cp[cp].vt[(vt + vt2 + 1) % L->cp[cp].nv];
 
 	}
+	cut_colors(&(newL->cp[cp]),&(L->cp[cp]),vt2+1);
 	newL->cp[cp].open = true;
 	plc_fix_wrap(newL);
 
@@ -3080,6 +3115,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 	  newL->cp[cp].vt[vt] = L->cp[cp].vt[(vt + vt2 + 1) % L->cp[cp].nv];
 
 	}
+	cut_colors(&(newL->cp[cp]),&(L->cp[cp]),vt2+1);
 	newL->cp[cp].open = true;
 	plc_fix_wrap(newL);
 
-- 
2.43.0


From 9f062ad686f9be65c284ac45d4a95c91977afa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:11 +0000
Subject: [PATCH 042/116] fix: plc_rotate distorted the curve for non-unit axes
 and left constraints behind

---
 src/plCurve.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 09f7d0b..8a5665c 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2618,10 +2618,24 @@ void plc_pfm(plCurve *link, int cp, int vt0, int vt1, double angle)
 void plc_rotate(plCurve *link, plc_vector axis, double angle)
 
 /* Rotate the link around a given axis. The tricky part is that we must transform the 
-   symmetry group accordingly. FIXME: We need to transform constraints, too! */
+   symmetry group (and the constraints) accordingly. */
 
 {
   int vt,cp;
+  bool axisok;
+  plc_constraint *cst;
+
+  axis = plc_normalize_vect(axis,&axisok);
+  if (!axisok) { return; } /* Can't rotate around a zero-length axis! */
+
+  /* Constraints are carried along by the rotation. */
+
+  for(cst=link->cst;cst != NULL;cst=cst->next) {
+
+    cst->vect[0] = plc_rotate_vect(cst->vect[0],axis,angle);
+    if (cst->kind == line) { cst->vect[1] = plc_rotate_vect(cst->vect[1],axis,angle); }
+
+  }
 
   if (link->G != NULL) {
 
-- 
2.43.0


From 05e8653c8a746ce1a4950dc910779db8bdd9e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:11 +0000
Subject: [PATCH 043/116] fix: plc_random_rotate did not turn the axis (0,0,-1)
 to (0,0,1)

---
 src/plCurve.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 8a5665c..9bfdc69 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2865,7 +2865,19 @@ void plc_random_rotate(plCurve *link, plc_vector axis)
     plc_fix_wrap(link);
   }
 
-  // else z is essentially 0 so we'll just leave things as is
+  // else the axis is vertical: nothing to do, unless it points down.
+
+  else if (zrand < 0) {
+
+    for(cp=0;cp < link->nc;cp++) {
+      for(vt=0;vt<link->cp[cp].nv;vt++) {
+	link->cp[cp].vt[vt].c[1] *= -1;
+	link->cp[cp].vt[vt].c[2] *= -1;
+      }
+    }
+
+    plc_fix_wrap(link);
+  }
 }
 
 
-- 
2.43.0


From 9f68a155f3cd6604f74d721fac6db3a460459f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:11 +0000
Subject: [PATCH 044/116] fix: plc_whitten read past the permutation and moved
 constraints to the wrong vertices

---
 src/plwhitten.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index 3f9b729..475a30e 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -68,7 +68,7 @@ int  perm(int permsize,int *perm,int ind)
 {
   int i;
 
-  for(i=0;i<permsize;i++) {
+  for(i=0;i<permsize-1;i++) {
     
     if (perm[i] == ind) { return perm[i+1]; }
 
@@ -77,13 +77,13 @@ int  perm(int permsize,int *perm,int ind)
   return ind;
 }
 
-int  iperm(int permsize,int *perm,int ind)
+int  iperm(int permsize,int *thisperm,int ind)
 {
   int i;
 
-  for(i=permsize;i>0;i--) {
+  for(i=0;i<permsize/2;i++) {
     
-    if (perm[i] == ind) { return perm[i-1]; }
+    if (perm(permsize,thisperm,i) == ind) { return i; }
 
   }
 
@@ -214,7 +214,7 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
       for(tc=L->cst;tc != NULL;tc=tc->next) {
 
-	tc->vert = (nv-1) - (tc->vert + tc->num_verts); 
+	if (tc->cmp == cp) { tc->vert = nv - (tc->vert + tc->num_verts); }
 
       }
 
@@ -224,6 +224,27 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
   plc_fix_wrap(L);
 
+  /* The list of constraints must stay sorted by component and vertex. */
+
+  plc_constraint *sorted = NULL, **place;
+
+  while (L->cst != NULL) {
+
+    tc = L->cst; L->cst = tc->next;
+
+    for(place = &sorted;*place != NULL && ((*place)->cmp < tc->cmp ||
+	((*place)->cmp == tc->cmp && (*place)->vert < tc->vert));place = &((*place)->next));
+
+    tc->next = *place; *place = tc;
+
+  }
+
+  L->cst = sorted;
+
+  /* The symmetry group refers to the old numbering, so we lose it. */
+
+  plc_symmetry_group_free(&(L->G));
+
   /* We have now applied everything. */
 
 }
-- 
2.43.0


From 057767423bbdbe01c398e3d96d3c25d485ecc492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:11 +0000
Subject: [PATCH 045/116] fix: plc_symmetrize did not update the wraparound
 vertices

---
 src/symmetries.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/symmetries.c b/src/symmetries.c
index ccd9d2d..6b85c0b 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -512,6 +512,7 @@ void plc_symmetrize(plCurve *L)
   }
 	  
   free(point_covered);
+  plc_fix_wrap(L); /* We changed vertices */
 
 }
 
-- 
2.43.0


From 5405f594f7206fe4af5a35eb908f215a48bc2fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:11 +0000
Subject: [PATCH 046/116] fix: plc_coordplanes_reflection_group was not closed
 under composition and could contain missing symmetries

---
 src/symmetries.c | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/symmetries.c b/src/symmetries.c
index 6b85c0b..664e40c 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -415,32 +415,26 @@ plc_symmetry_group *plc_coordplanes_reflection_group(plCurve *L)
 
 {
   plc_symmetry_group *build;
-  build = plc_symmetry_group_new(4);
+  build = plc_symmetry_group_new(8);
 
-  /* We now try to set up the group. */
+  /* We now try to set up the group: the identity, the three reflections */
+  /* and their products. All elements are their own inverses. */
 
+  static const double sign[8][3] = {{1,1,1},{-1,1,1},{1,-1,1},{1,1,-1},
+				    {1,-1,-1},{-1,1,-1},{-1,-1,1},{-1,-1,-1}};
   plc_matrix A;
-  plc_identity_matrix(&A);
-  build->sym[0] = plc_build_symmetry(&A,L);
-
-  plc_reflection_matrix(plc_build_vect(1,0,0),&A);
-  build->sym[1] = plc_build_symmetry(&A,L);
-
-  plc_reflection_matrix(plc_build_vect(0,1,0),&A);
-  build->sym[2] = plc_build_symmetry(&A,L);
-  
-  plc_reflection_matrix(plc_build_vect(0,0,1),&A);
-  build->sym[3] = plc_build_symmetry(&A,L);
-
-  /* All elements are their own inverses */
+  int i,j;
 
-  build->inverse[0] = 0; build->inverse[1] = 1; 
-  build->inverse[2] = 2; build->inverse[3] = 3;
+  for(i=0;i<8;i++) {
+    plc_identity_matrix(&A);
+    for(j=0;j<3;j++) { A[j][j] = sign[i][j]; }
+    build->sym[i] = plc_build_symmetry(&A,L);
+    build->inverse[i] = i;
+  }
 
   /* We need to scan and make sure the builds succeeded. */
 
-  int i;
-  for(i=0;i<2;i++) {
+  for(i=0;i<8;i++) {
 
     if (build->sym[i] == NULL) {
 
-- 
2.43.0


From 5ffe476a649b0adb5dfb7542339cf8c6a538c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:11 +0000
Subject: [PATCH 047/116] fix: plc_dihedral_angle crashed when called without
 ok

---
 src/vector.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 5b8e18f..6eea466 100755
--- a/src/vector.c
+++ b/src/vector.c
@@ -418,10 +418,9 @@ double plc_dihedral_angle(plc_vector A, plc_vector B, plc_vector C, plc_vector D
   /* With these three vectors, we should be able to compute the dihedral. */
   /* If we got this far, we'll get a result. */
 
-  *ok = true;
-
-  double theta = plc_angle(normABC,normACD,ok);
-  if (!(*ok)) { return 0; } 
+  double theta = plc_angle(normABC,normACD,&local_ok);
+  if (ok != NULL) { *ok = local_ok; }
+  if (!local_ok) { return 0; } 
 
   /* We have the angle. The question is how the angle is oriented. */
 
-- 
2.43.0


From fb99ed3793a84f5a138e3ad4dc3cd899da2d1e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:14 +0000
Subject: [PATCH 048/116] fix: plc_read returns an error when the file's
 component count cannot be allocated

---
 src/plCurve.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 9bfdc69..24caf0c 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1216,12 +1216,18 @@ void plc_fix_wrap(plCurve * const L) {
   /* We now try to read the array of numbers of vertices. */
 
   nvarray = (int *)malloc(ncomp*sizeof(int));
-  assert(nvarray != NULL);
-  nvarray[0] = 0;
   open    = (bool *)malloc(ncomp*sizeof(bool));
-  assert(open != NULL);
   ccarray = (int *)malloc(ncomp*sizeof(int));
-  assert(ccarray != NULL);
+  if (nvarray == NULL || open == NULL || ccarray == NULL) {
+    free(nvarray);
+    free(open);
+    free(ccarray);
+    *error_num = PLC_E_BAD_CMP_NUM;
+    (void)snprintf(error_str,error_str_len,
+        "plc_read: VECT file defines plCurve with %d compoments.\n",ncomp);
+    return NULL;
+  }
+  nvarray[0] = 0;
   ccarray[0] = 0;
 
   /*@+loopexec@*/
-- 
2.43.0


From 90d30df568944d6facfb8f2f4431b3c0e26e9ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:14 +0000
Subject: [PATCH 049/116] fix: plc_read builds its constraint error messages
 before freeing the text they quote

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 24caf0c..3080304 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1331,10 +1331,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_NUM;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't parse constraint number from '%s'.\n",place);
+      free(comment);
       return NULL;
     }
     if ((size_t)cst_num+1 > cst_list_len) {
@@ -1431,10 +1431,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_KIND;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Unrecognized constraint kind '%s'.\n",place);
+      free(comment);
       return NULL;
     }
   }
-- 
2.43.0


From 31a75eeae87f7751c7a9d7c32ddfd07a9363b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:14 +0000
Subject: [PATCH 050/116] fix: plc_read does not read past the end of a
 constraint definition which ends the comment

---
 src/plCurve.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 3080304..6c71a8d 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1178,7 +1178,7 @@ void plc_fix_wrap(plCurve * const L) {
   int ds; /* Doubles scanned */
   /*@temp@*/ char *place;
   char *space = " ";
-  size_t parsed;
+  size_t parsed, comment_len;
   plc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
@@ -1308,6 +1308,7 @@ void plc_fix_wrap(plCurve * const L) {
   while ((place = strcasestr(comment,"Constraint ")) != NULL) {
     /* Move the word "Constraint to the beginning of the string */
     memmove(comment,place,strlen(place)+1);
+    comment_len = strlen(comment);
     /* Now start tokenizing */
     place = strtok(comment, space); /* "Constraint" */
 #define place_not_null \
@@ -1357,6 +1358,7 @@ void plc_fix_wrap(plCurve * const L) {
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
     parsed += strlen(place)+1;
+    if (parsed > comment_len) { parsed = comment_len; }
     if (strcasestr(place,"Fixed") != NULL) {
       cst_list[cst_num].kind = fixed;
       if (sscanf(&comment[parsed],"%lf %lf %lf",
@@ -1378,6 +1380,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
+      if (parsed > comment_len) { parsed = comment_len; }
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else if (strcasestr(place,"Line") != NULL) {
       cst_list[cst_num].kind = line;
@@ -1402,6 +1405,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
+      if (parsed > comment_len) { parsed = comment_len; }
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else if (strcasestr(place,"Plane") != NULL) {
       cst_list[cst_num].kind = plane;
@@ -1426,6 +1430,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
+      if (parsed > comment_len) { parsed = comment_len; }
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else {
       plc_free(L);
-- 
2.43.0


From 505d961ebe70df3fd9a76d5021633f47015266a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:50 +0000
Subject: [PATCH 051/116] fix: plc_double_verts produced nan vertices where the
 curve turns back on itself

---
 src/plCurve.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 6c71a8d..d5c887b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2331,8 +2331,17 @@ void mpsverts(plCurve *L,int cmp,int vt,plc_vector mpsverts[2])
   dot_prod = plc_M_dot(in,out);
   cross_prod_norm = plc_norm(plc_cross_prod(in,out));
 
-  curv = 2*cross_prod_norm/(normin*normout + dot_prod);      
-  rad = (normin*normout + dot_prod)/(2*cross_prod_norm);
+  if (dot_prod < 0) { /* The same ratio, written so that it survives a complete turnaround. */
+
+    curv = 2*(normin*normout - dot_prod)/cross_prod_norm;
+    rad = cross_prod_norm/(2*(normin*normout - dot_prod));
+
+  } else {
+
+    curv = 2*cross_prod_norm/(normin*normout + dot_prod);      
+    rad = (normin*normout + dot_prod)/(2*cross_prod_norm);
+
+  }
 
   /* Minrad is the least of normin * rad and normout * rad. */
   /* We keep track of the reciprocal of minrad as well so that */
-- 
2.43.0


From e417614bf7144031545be32cf7307c0dd246112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:17 +0000
Subject: [PATCH 052/116] fix: plc_dihedral_angles counts two dihedrals per
 quadruple and respects its buffer

---
 src/plc_dihedrals.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/plc_dihedrals.c b/src/plc_dihedrals.c
index bc7890c..613c9ac 100644
--- a/src/plc_dihedrals.c
+++ b/src/plc_dihedrals.c
@@ -41,6 +41,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 #include <time.h>
 
 #ifdef HAVE_GSL_GSL_COMBINATION_H
@@ -61,7 +62,14 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
 {
   int n = L->cp[0].nv;
 
-  unsigned int max_ndihedrals = (n*(n-1)*(n-2)*(n-3)*(n-4))/4;
+  unsigned int max_ndihedrals = 0; /* Two dihedrals for each of the (n 4) quadruples */
+
+  if (n >= 4) {
+
+    double total = n*(n-1.0)*(n-2.0)*(n-3.0)/12.0;
+    max_ndihedrals = (total < UINT_MAX) ? (unsigned int)(total + 0.5) : UINT_MAX;
+
+  }
 
   if (*ndihedrals == 0) { 
 
@@ -74,11 +82,11 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
   }
 
   float *angles;
-  angles = calloc(*ndihedrals,sizeof(float));
+  angles = calloc((*ndihedrals > 0) ? *ndihedrals : 1,sizeof(float));
   
-  if (angles == NULL) { 
+  if (angles == NULL || *ndihedrals == 0) { 
 
-    return NULL;
+    return angles;
 
   }
 
@@ -107,6 +115,8 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
     angles[i] = plc_angle(plc_normal(a,b,d,&ok1),plc_normal(b,c,d,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
     i++;
+
+    if (i >= *ndihedrals) { break; }
     
     angles[i] = plc_angle(plc_normal(a,b,c,&ok1),plc_normal(c,d,a,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
-- 
2.43.0


From 9137c9347eed18fab0d90a0cfa9a1e9c81cc12bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:22 +0000
Subject: [PATCH 053/116] fix: plc_convert_from_spline aborted when the end of
 an open component was rounded up or one vertex was requested

---
 src/splines.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/splines.c b/src/splines.c
index 251f6e7..04e86ae 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -574,8 +574,10 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
     } 
 
     if (spL->cp[comp].open) {
-      s_max = spL->cp[comp].svals[spL->cp[comp].ns-1] * 
-        ((double)L->cp[comp].nv / (double)(L->cp[comp].nv - 1));
+      s_max = spL->cp[comp].svals[spL->cp[comp].ns-1]; 
+      if (L->cp[comp].nv > 1) {
+        s_max *= ((double)L->cp[comp].nv / (double)(L->cp[comp].nv - 1));
+      }
     } else {
       s_max = spL->cp[comp].svals[spL->cp[comp].ns];
     }
@@ -591,7 +593,10 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
         shi++;
         slo++;
       }
-      assert(spL->cp[comp].svals[shi] >= s);
+
+      /* The last sample of an open component may round past its end. */
+
+      if (s > spL->cp[comp].svals[shi]) { s = spL->cp[comp].svals[shi]; }
       assert(spL->cp[comp].svals[slo] <= s);
 
       /* Now we can evaluate the spline polynomial. */
-- 
2.43.0


From d394074db4dec80a52d96ba2382269b9bc4cf46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:41 +0000
Subject: [PATCH 054/116] fix: plc_convert_from_spline read past the colors of
 a closed component

---
 src/splines.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/splines.c b/src/splines.c
index 04e86ae..f79f0bd 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -500,6 +500,17 @@ inline static plc_vector evaluate_poly_derivative(const plc_spline * const spL,
 
 }
 
+/*
+ * The color at sample i of a spline strand. On a closed strand, sample ns is
+ * sample 0 again. If there are fewer colors than samples, the last one
+ * applies to the remaining samples.
+ */
+inline static plc_color spline_color(const plc_spline_strand * const Pl, int i)
+{
+  i %= Pl->ns;
+  return Pl->clr[(i < Pl->cc) ? i : Pl->cc-1];
+}
+
 /*
  * Converts spline back to regular plCurve, but changes the number of verts
  * to those in nv. We require that the number of components in nv match those
@@ -605,11 +616,15 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
       /* And interpolate the colors */
       if (do_colors) {
+        plc_color lo, hi;
+
+        lo = spline_color(&spL->cp[comp],slo);
+        hi = spline_color(&spL->cp[comp],shi);
         L->cp[comp].clr[i] = plc_build_color(
-            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[shi].r,
-            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[shi].g,
-            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[shi].b,
-            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[shi].alpha);
+            a*lo.r     + b*hi.r,
+            a*lo.g     + b*hi.g,
+            a*lo.b     + b*hi.b,
+            a*lo.alpha + b*hi.alpha);
       }
     }
 
-- 
2.43.0


From 6b5bbbf266a7cc5870b3de36d6633bf1a98d3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:41 +0000
Subject: [PATCH 055/116] fix: sampling the spline of an open component past
 its last vertex used uninitialized memory

---
 src/splines.c | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/splines.c b/src/splines.c
index f79f0bd..7cf726d 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -698,16 +698,29 @@ plc_vector plc_sample_spline(const plc_spline * const spL,
   assert(cmp >= 0);
   assert(cmp < spL->nc);
 
-  /* Now fix any wraparound, so that the s value given is in [0,cmpLen). */
+  if (spL->cp[cmp].open) { 
 
-  cmpLen = spL->cp[cmp].svals[spL->cp[cmp].ns];
-  while (s < DBL_EPSILON) {    s += cmpLen; }
-  while (s >= cmpLen) { s -= cmpLen; }
+    /* An open component has no wraparound: s stays in [0,cmpLen]. */
+
+    khi = spL->cp[cmp].ns-1;
+    cmpLen = spL->cp[cmp].svals[khi];
+    if (s < 0) { s = 0; }
+    if (s > cmpLen) { s = cmpLen; }
+
+  } else {
+
+    /* Now fix any wraparound, so that the s value given is in [0,cmpLen). */
+
+    khi = spL->cp[cmp].ns;
+    cmpLen = spL->cp[cmp].svals[khi];
+    while (s < DBL_EPSILON) {    s += cmpLen; }
+    while (s >= cmpLen) { s -= cmpLen; }
+
+  }
 
   /* We now search for the correct s value. */
 
   klo = 0;
-  khi = spL->cp[cmp].ns;
 
   while (khi-klo > 1) {
 
@@ -738,16 +751,29 @@ plc_vector plc_spline_tangent(const plc_spline * const spL,
   assert(cmp >= 0);
   assert(cmp < spL->nc);
 
-  /* Now fix any wraparound, so that the s value given is in [0,cmpLen). */
+  if (spL->cp[cmp].open) { 
 
-  cmpLen = spL->cp[cmp].svals[spL->cp[cmp].ns];
-  while (s < DBL_EPSILON) {    s += cmpLen; }
-  while (s >= cmpLen) { s -= cmpLen; }
+    /* An open component has no wraparound: s stays in [0,cmpLen]. */
+
+    khi = spL->cp[cmp].ns-1;
+    cmpLen = spL->cp[cmp].svals[khi];
+    if (s < 0) { s = 0; }
+    if (s > cmpLen) { s = cmpLen; }
+
+  } else {
+
+    /* Now fix any wraparound, so that the s value given is in [0,cmpLen). */
+
+    khi = spL->cp[cmp].ns;
+    cmpLen = spL->cp[cmp].svals[khi];
+    while (s < DBL_EPSILON) {    s += cmpLen; }
+    while (s >= cmpLen) { s -= cmpLen; }
+
+  }
 
   /* We now search for the correct s value. */
 
   klo = 0;
-  khi = spL->cp[cmp].ns;
 
   while (khi-klo > 1) {
 
-- 
2.43.0


From feba85804dd234c4edcd3f66acada43a48ecfd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:59 +0000
Subject: [PATCH 056/116] fix: plc_convert_from_spline could make constraint
 runs overlap or reach past the end of a component

---
 src/splines.c | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/splines.c b/src/splines.c
index 7cf726d..6322beb 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -670,6 +670,13 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 	  cst->num_verts = ceil(((cst_shi-cst_slo)/s_max)*L->cp[comp].nv);
 	  
 	}	
+
+	/* Rounding must not take the constraint past the end of the component. */
+
+	if (cst->vert > L->cp[comp].nv-1) { cst->vert = L->cp[comp].nv-1; }
+	if (cst->num_verts > L->cp[comp].nv - cst->vert) {
+	  cst->num_verts = L->cp[comp].nv - cst->vert;
+	}
 	
       }
 
@@ -677,6 +684,42 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
   }
 
+  /* Runs which were adjacent may now overlap. Each run ends where the next one
+     starts; when both start at the same vertex the second one starts later, and
+     is lost if there is no vertex left for it. */
+
+  for(cst=L->cst;cst != NULL && cst->next != NULL;) {
+
+    newcst = cst->next;
+
+    if (newcst->cmp != cst->cmp || cst->vert + cst->num_verts <= newcst->vert) {
+
+      cst = newcst;
+
+    } else if (cst->vert < newcst->vert) {
+
+      cst->num_verts = newcst->vert - cst->vert;
+      cst = newcst;
+
+    } else {
+
+      int drop = cst->vert + 1 - newcst->vert;
+
+      cst->num_verts = 1;
+      newcst->vert += drop;
+      newcst->num_verts -= drop;
+
+      if (newcst->num_verts <= 0) {
+
+	cst->next = newcst->next;
+	free(newcst);
+
+      }
+
+    }
+
+  }
+
   plc_fix_wrap(L);
   return L;
 }
-- 
2.43.0


From f8f55b27d5dca833ae29f98fbddddbb3beea030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:51 +0000
Subject: [PATCH 057/116] fix: octrope_strutfile_read accepted files without
 the STRUTS keyword

---
 src/octrope.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index c319f16..58f047b 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2120,14 +2120,15 @@ void octrope_strutfile_read(plCurve *L,
                             FILE *file)
 
 {
-  int i;
+  int i,matched = 0;
   octrope_strut ts;
   octrope_mrloc tmr;
   
   /* First, we check for the 'STRUTS' keyword. */
   
   octrope_error_num = octrope_error_str[0] = 0;
-  if (fscanf(file," STRUTS ") == EOF) {
+  (void)fscanf(file," STRUTS%n ",&matched);
+  if (matched == 0) {
     
     octrope_error_num = 20;
     sprintf(octrope_error_str,
-- 
2.43.0


From f961eaccb6282bb32e93a427c4fc05400e192fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:51 +0000
Subject: [PATCH 058/116] fix: octrope_strutfile_read used negative component
 and vertex numbers as array indices

---
 src/octrope.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index 58f047b..66aebe3 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2162,7 +2162,7 @@ void octrope_strutfile_read(plCurve *L,
   (*strutlist) = (octrope_strut *)calloc(*n_struts,sizeof(octrope_strut));
   (*mrlist)    = (octrope_mrloc *)calloc(*n_mrloc,sizeof(octrope_mrloc));
 
-  if (strutlist == NULL || mrlist == NULL) {
+  if ((*strutlist == NULL && *n_struts > 0) || (*mrlist == NULL && *n_mrloc > 0)) {
 
     octrope_error_num = 50;
     sprintf(octrope_error_str,
@@ -2192,7 +2192,8 @@ void octrope_strutfile_read(plCurve *L,
 
     ts = (*strutlist)[i];
 
-    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc) {
+    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc ||
+        ts.component[0] < 0 || ts.component[1] < 0) {
 
       octrope_error_num = 66;
       sprintf(octrope_error_str,
@@ -2204,7 +2205,8 @@ void octrope_strutfile_read(plCurve *L,
     }
 
     if (ts.lead_vert[0] >= L->cp[ts.component[0]].nv ||
-        ts.lead_vert[1] >= L->cp[ts.component[1]].nv) {
+        ts.lead_vert[1] >= L->cp[ts.component[1]].nv ||
+        ts.lead_vert[0] < 0 || ts.lead_vert[1] < 0) {
 
       octrope_error_num = 67;
       sprintf(octrope_error_str,
-- 
2.43.0


From dfa5606038977c07e9b834f35a917a7a29b92694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:08 +0000
Subject: [PATCH 059/116] fix: pd_regenerate_tangle missed interior crossings
 and edges behind a kink of an interior component

---
 src/pd_tangles.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 992bceb..ec3cdfe 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -1015,11 +1015,13 @@ void tangle_contents_worker(pd_code_t *pd,pd_tangle_t *t,
   transverse_edge[0] = pd->cross[cr].edge[(pd->edge[edge].headpos+1)%4];
   transverse_edge[1] = pd->cross[cr].edge[(pd->edge[edge].headpos+3)%4];
 
-  if (pd->edge[transverse_edge[0]].tail == cr) {
+  if (pd->edge[transverse_edge[0]].tail == cr &&
+      pd->edge[transverse_edge[0]].tailpos == (pd->edge[edge].headpos+1)%4) {
 
     tangle_contents_worker(pd,t,transverse_edge[0],depth+1);
 
-  } else if (pd->edge[transverse_edge[1]].tail == cr) {
+  } else if (pd->edge[transverse_edge[1]].tail == cr &&
+	     pd->edge[transverse_edge[1]].tailpos == (pd->edge[edge].headpos+3)%4) {
 
     tangle_contents_worker(pd,t,transverse_edge[1],depth+1);
 
-- 
2.43.0


From fa2e9a84bbcbc5af25ad3d4cd0f45a14e1d933f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:06 +0000
Subject: [PATCH 060/116] fix: pd_tangle_slide refused every slide of a two
 edge overstrand

---
 src/pd_tangles.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index ec3cdfe..d776552 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2247,17 +2247,15 @@ void pd_tangle_slide_err(pd_code_t *pd,pd_tangle_t *t,
 
   /* First, we check the crossings involved in the overstrand. */
 
-  for(i=1;i<n-1;i++) {
+  for(i=0;i<n-1;i++) {
 
-    if (pd->edge[overstrand_edges[i]].tail == start_anchor ||
-	pd->edge[overstrand_edges[i]].head == start_anchor ) {
+    if (pd->edge[overstrand_edges[i]].head == start_anchor) {
 
       start_anchor_ok = false;
 
     }
 
-    if (pd->edge[overstrand_edges[i]].tail == end_anchor ||
-	pd->edge[overstrand_edges[i]].head == end_anchor) {
+    if (pd->edge[overstrand_edges[i]].head == end_anchor) {
 
       end_anchor_ok = false;
 
@@ -2404,6 +2402,21 @@ end_anchor   |                   |    +---start_anchor
 
   }
 
+  /* We also detach e[0] and e[n-1] from the crossings we're about to
+     delete (if n == 2, this is the only thing which marks the one
+     crossing on the overstrand). */
+
+  pd_edge_t *first_edge = &(pd_working->edge[overstrand_edges[0]]);
+  pd_edge_t *last_edge  = &(pd_working->edge[overstrand_edges[n-1]]);
+
+  pd_working->cross[first_edge->head].edge[first_edge->headpos] = PD_UNSET_IDX;
+  first_edge->head = PD_UNSET_IDX;
+  first_edge->headpos = PD_UNSET_POS;
+
+  pd_working->cross[last_edge->tail].edge[last_edge->tailpos] = PD_UNSET_IDX;
+  last_edge->tail = PD_UNSET_IDX;
+  last_edge->tailpos = PD_UNSET_POS;
+
   /* Step 3. We're now in the state:
 
 		  |  	   |
-- 
2.43.0


From 284b13cf6a3f872aca88af27f3062cbb03876a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:19 +0000
Subject: [PATCH 061/116] fix: pd_tangle_slide left the sign of a single new
 crossing uninitialized

---
 src/pd_tangles.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index d776552..6123b69 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3230,6 +3230,24 @@ end_anchor   | 	    Tangle     	 |
 
     }
 
+    /* If there's only one new crossing, the loop above never ran, so we
+       assign the sign here. */
+
+    if (ncomplementary_edges == 1) {
+
+      pd_working->cross[pd->ncross].sign = PD_POS_ORIENTATION;
+
+      pd_idx_t in_overstrand, out_overstrand;
+      pd_overstrand(pd_working,pd->ncross,&in_overstrand,&out_overstrand);
+
+      if (overstrand_goes_OVER != (in_overstrand == overstrand_edges[0])) {
+
+	pd_working->cross[pd->ncross].sign = PD_NEG_ORIENTATION;
+
+      }
+
+    }
+
   }
 
   /* Step 6. Cleanup. At this point, we should have valid crossing data for a pd
-- 
2.43.0


From e0e56220b76675d264cd6f06470bc33579bd42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 062/116] fix: pd_tangle_slide wrote past the end of a
 component which gained edges

---
 src/pd_tangles.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 6123b69..a92df04 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3479,6 +3479,12 @@ end_anchor   | 	    Tangle     	 |
 
       pd_working->comp[i].edge[0] = pd_working->comp[i].edge[j];
 
+      /* The component may have more edges now than it had before. */
+
+      pd_working->comp[i].edge = realloc(pd_working->comp[i].edge,
+					 (pd_working->MAXEDGES+2)*sizeof(pd_idx_t));
+      assert(pd_working->comp[i].edge != NULL);
+
       pd_idx_t next_edge;
       pd_or_t  next_or;
 
-- 
2.43.0


From e0c2d0930f471444f449341f418590a6c8cc9adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:54 +0000
Subject: [PATCH 063/116] fix: pd_tangle_slide lost a complementary edge which
 also meets the overstrand

---
 src/pd_tangles.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index a92df04..3733128 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2533,8 +2533,34 @@ end_anchor   | 	    Tangle     	 |
 
     if (has_unset) {
 
+	pd_crossing_t old_cross = pd_working->cross[j];
+	pd_idx_t ce;
+
 	pd_crossing_delete(pd_working,j);
 
+	/* If one of the edges sewn together here was a complementary edge,
+	   the edge which is left takes its place. */
+
+	for(k=0;k<4;k++) {
+
+	  if (old_cross.edge[k] != PD_UNSET_IDX &&
+	      old_cross.edge[(k+2)%4] != PD_UNSET_IDX &&
+	      pd_edge_deleted(pd_working,old_cross.edge[k])) {
+
+	    for(ce=0;ce<t->nedges-(n-1);ce++) {
+
+	      if (complementary_edges[ce] == old_cross.edge[k]) {
+
+		complementary_edges[ce] = old_cross.edge[(k+2)%4];
+
+	      }
+
+	    }
+
+	  }
+
+	}
+
     }
 
   }
-- 
2.43.0


From 0a91f7e71525108c08b05f80124ba48b3ea82a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:20 +0000
Subject: [PATCH 064/116] fix: pd_regenerate used unset or invalid edge records
 as array indices

---
 src/pdcode.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 9d860b6..8604ae6 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -662,8 +662,19 @@ void pd_regenerate_crossings(pd_code_t *pd)
 
     pd_edge_t *e = &(pd->edge[edge]);
 
-    e->headpos = (e->headpos - cross_rotate[e->head] + 4) % 4;
-    e->tailpos = (e->tailpos - cross_rotate[e->tail] + 4) % 4;
+    /* Leave references which aren't valid alone. */
+
+    if (e->head < pd->ncross && e->headpos < 4) {
+
+      e->headpos = (e->headpos - cross_rotate[e->head] + 4) % 4;
+
+    }
+
+    if (e->tail < pd->ncross && e->tailpos < 4) {
+
+      e->tailpos = (e->tailpos - cross_rotate[e->tail] + 4) % 4;
+
+    }
 
   }
 
@@ -685,8 +696,17 @@ void pd_regenerate_crossings(pd_code_t *pd)
 
   for(edge=0;edge<pd->nedges;edge++) {
 
-    pd->edge[edge].head = new_cross_num[pd->edge[edge].head];
-    pd->edge[edge].tail = new_cross_num[pd->edge[edge].tail];
+    if (pd->edge[edge].head < pd->ncross) {
+
+      pd->edge[edge].head = new_cross_num[pd->edge[edge].head];
+
+    }
+
+    if (pd->edge[edge].tail < pd->ncross) {
+
+      pd->edge[edge].tail = new_cross_num[pd->edge[edge].tail];
+
+    }
 
   }
 
-- 
2.43.0


From d3d36d68d33fe55c12ef1508ecf2835dab7e5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:25 +0000
Subject: [PATCH 065/116] fix: pd_code_from_plCurve retried the same projection
 instead of a new one

---
 src/plcTopology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 2ee56e3..05dd01f 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1357,7 +1357,7 @@ pd_code_t *pd_code_from_plCurve(gsl_rng *rng, plCurve *L) {
 
     /* Step 2. Perturb to make it crossing-clean. */
 
-    plCurve *genericL = make_zprojection_generic(rng,L);
+    plCurve *genericL = make_zprojection_generic(rng,workingL);
 
     if (pd_code_from_plCurve_verbose) {
 
-- 
2.43.0


From 0ca2426dae7289f3688512a4250d1283236423af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:36 +0000
Subject: [PATCH 066/116] fix: pd_code_from_plCurve could change the knot type
 by perturbing a vertex again and again

---
 src/plcTopology.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 05dd01f..5069227 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -647,7 +647,7 @@ bool tag_as_trouble(plc_vector A[2], plc_vector B[2]) {
 
 plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
 
-  plCurve *Lcopy,*Lprojection;
+  plCurve *Lcopy,*Lprojection,*Lstart;
   Lcopy = plc_copy(L);
 
   int  cmpA,cmpB,vtA,vtB;
@@ -677,6 +677,12 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
     Lprojection = plc_copy(Lcopy);
     plc_project(Lprojection,plc_build_vect(0,0,1));
 
+    /* A vertex can be in trouble with many edges. However often we
+       perturb it, it has to stay within safe_radius of the position
+       it had when we computed safe_radius. */
+
+    Lstart = plc_copy(Lcopy);
+
     projection_clean = true;
 
     for(cmpA=0;cmpA < Lcopy->nc;cmpA++) {
@@ -714,6 +720,12 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
 
 	      projection_clean = false;
 
+	      Lcopy->cp[cmpA].vt[vtA]   = Lstart->cp[cmpA].vt[vtA];
+	      Lcopy->cp[cmpA].vt[vtA+1] = Lstart->cp[cmpA].vt[vtA+1];
+
+	      Lcopy->cp[cmpB].vt[vtB]   = Lstart->cp[cmpB].vt[vtB];
+	      Lcopy->cp[cmpB].vt[vtB+1] = Lstart->cp[cmpB].vt[vtB+1];
+
 	      plc_perturb_vect(rng,&Lcopy->cp[cmpA].vt[vtA],safe_radius);
 	      plc_perturb_vect(rng,&Lcopy->cp[cmpA].vt[vtA+1],safe_radius);
 
@@ -738,6 +750,7 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
        this projection. We sweep again to make sure. */
 
     plc_free(Lprojection);
+    plc_free(Lstart);
 
   }
 
-- 
2.43.0


From 1b3b089f3c152b438e9d2be8104ae11556f1dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 067/116] fix: pd_classify freed the caller's diagram

---
 src/plcTopology.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 5069227..07c3309 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1657,7 +1657,6 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   }
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
-- 
2.43.0


From 64946fefa0bde6c3a3865ea2e02689c470b8c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 068/116] fix: plc_classify leaked most of the diagram it
 computed

---
 src/plcTopology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 07c3309..78cd106 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1563,7 +1563,7 @@ plc_knottype *plc_classify(gsl_rng *rng, plCurve *L, int *nposs)
   if (pdC == NULL) { *nposs = 0; return NULL; } /* For a singular polygon, don't classify. */
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
+  pd_code_free(&pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
-- 
2.43.0


From 8475c37ca6170874310fde0124c5183e1cae07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 069/116] fix: plc_read_knottype refused the unknot, accepted
 missing knots, did not count factors and misused memory

---
 src/plcTopology.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 78cd106..65418da 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1740,12 +1740,22 @@ plc_knottype *plc_read_knottype(const char *kt)
   char *primecomp;
   plc_knottype *working_kt;
   int pc = 0;
+  char *saveptr = NULL;
   char *working_copy = calloc(strlen(kt)+10,sizeof(char));
   strcpy(working_copy,kt);
-  int maxind[19] = {0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
+  /* The number of prime knots with 0, 1, ..., 19 crossings, counting the unknot as 0_1. */
+  int maxind[20] = {1, 0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
 
   working_kt = calloc(1,sizeof(plc_knottype));
-  while((primecomp = strtok_r(working_copy,"#",&working_copy)) != NULL) {
+  for(primecomp = strtok_r(working_copy,"#",&saveptr);primecomp != NULL;primecomp = strtok_r(NULL,"#",&saveptr)) {
+
+    if (pc == MAXPRIMEFACTORS) {
+      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
+	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
+      free(working_copy);
+      free(working_kt);
+      return NULL;
+    }
 
     if (sscanf(primecomp,"%d_%d",&(working_kt->cr[pc]),&(working_kt->ind[pc])) != 2) {
       fprintf(stderr,"plc_read_knottype: Could not parse prime component %s in knot type %s.\n",primecomp,kt);
@@ -1761,8 +1771,8 @@ plc_knottype *plc_read_knottype(const char *kt)
       return NULL;
     }
 
-    if (working_kt->ind[pc] < 0 || working_kt->ind[pc] > maxind[working_kt->cr[pc]]) {
-      fprintf(stderr,"plc_read_knottype: Prime component type %s has index <0 or >%d (the number of %d crossing prime knots).\n",primecomp,
+    if (working_kt->ind[pc] < 1 || working_kt->ind[pc] > maxind[working_kt->cr[pc]]) {
+      fprintf(stderr,"plc_read_knottype: Prime component type %s has index <1 or >%d (the number of %d crossing prime knots).\n",primecomp,
 	      maxind[working_kt->cr[pc]],working_kt->cr[pc]);
       free(working_copy);
       free(working_kt);
@@ -1771,17 +1781,17 @@ plc_knottype *plc_read_knottype(const char *kt)
 
     pc++;
 
-    if (pc == MAXPRIMEFACTORS) {
-      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
-	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
-      free(working_copy);
-      free(working_kt);
-
-    }
-    
   }
 
   free(working_copy);
+
+  if (pc == 0) {
+    fprintf(stderr,"plc_read_knottype: Could not find a prime component in knot type %s.\n",kt);
+    free(working_kt);
+    return NULL;
+  }
+
+  working_kt->nf = pc;
   return working_kt;
 }
 
-- 
2.43.0


From fba0826206fbd7e6cea652702585f44f387f723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:33 +0000
Subject: [PATCH 070/116] fix: pd_build_twist_knot built the wrong knot for an
 even number of twists

---
 src/pdcode_testcodes.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pdcode_testcodes.c b/src/pdcode_testcodes.c
index 7b22e88..043d460 100644
--- a/src/pdcode_testcodes.c
+++ b/src/pdcode_testcodes.c
@@ -79,13 +79,15 @@ pd_code_t *pd_build_twist_knot(pd_idx_t n)
     
   pd_regenerate(pd);
 
-  /* Now we have an edge list and can assign crossing signs. It turns
-     out that this is trivial as all the crossings have positive sign. */
+  /* Now we have an edge list and can assign crossing signs, so that
+     the diagram is alternating. The clasp crossings (which come first)
+     are positive. The crossings in the twisted part have the same sign
+     if the number of twists is odd and the opposite sign if it is even. */
 
   pd_idx_t k;
   for(k=0;k<pd->ncross;k++) { 
 
-    pd->cross[k].sign = PD_POS_ORIENTATION;
+    pd->cross[k].sign = (k < 2 || n%2 == 1) ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION;
 
   }
 
-- 
2.43.0


From 7cfefdef8d5a363f4b9a3b91a2535cd6e16e28b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:21 +0000
Subject: [PATCH 071/116] fix: pd_perm_ok read past the precomputed
 permutations and reported errors with the wrong arguments

---
 src/pd_perm.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pd_perm.c b/src/pd_perm.c
index 20d3542..e05ce07 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -195,10 +195,10 @@ bool pd_perm_ok(void *permP)
 
   if (perm->n <= PD_MAX_PC_PERM) { /* Check perm->pc_idx legal. */
 
-    if (perm->pc_idx > pd_nperms(perm)) {
+    if (perm->pc_idx >= pd_nperms(perm)) {
 
-      return pd_error(SRCLOC,"%PERM precomputed idx # %d > # %d-element precomp perms == %d",NULL,
-		      perm,perm->pc_idx,pd_nperms(perm));
+      return pd_error(SRCLOC,"%PERM precomputed idx # %d >= # %d-element precomp perms == %d",NULL,
+		      perm,perm->pc_idx,perm->n,pd_nperms(perm));
 
     }
 
@@ -208,8 +208,8 @@ bool pd_perm_ok(void *permP)
 
       if (perm->map[i] != pd_pc_perm[perm->n][perm->pc_idx].p[i]) {
 
-	return pd_error(SRCLOC,"%PERM != %PERM with index %d\n",NULL,
-			perm,&(pd_pc_perm[perm->n][perm->pc_idx]),perm->pc_idx);
+	return pd_error(SRCLOC,"%PERM != precomputed permutation with index %d\n",NULL,
+			perm,perm->pc_idx);
 
       }
 
@@ -224,7 +224,7 @@ bool pd_perm_ok(void *permP)
     if (perm->map[i] >= perm->n) { 
 
       return pd_error(SRCLOC,"%PERM contains illegal index %d at position %d",NULL,
-		      perm->map[i],i);
+		      perm,perm->map[i],i);
 
     }
 
-- 
2.43.0


From 69ffefcc9a748ab831a5e615bb5c6cfb0c4a49b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:21 +0000
Subject: [PATCH 072/116] fix: printing a long permutation wrote past the end
 of its buffer

---
 src/pd_cyclic.c   | 5 ++---
 src/pd_dihedral.c | 5 ++---
 src/pd_perm.c     | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/pd_cyclic.c b/src/pd_cyclic.c
index 8825e68..a067f07 100644
--- a/src/pd_cyclic.c
+++ b/src/pd_cyclic.c
@@ -110,12 +110,11 @@ char  *pd_print_cyclic(void *cyclicP)
 
     for(i=0;i<c->n && chars_ptd < bufsize;i++) {
 
-      chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d",c->map[i]); 
-      if (i != c->n-1) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
+      chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d%s",c->map[i],(i != c->n-1) ? " " : "");
 
     }
 
-    if (chars_ptd > bufsize) { 
+    if (chars_ptd >= bufsize) { 
 
       snprintf(buf,bufsize,"[CYCLIC > %d CHARS]",(int)(bufsize));
 
diff --git a/src/pd_dihedral.c b/src/pd_dihedral.c
index c57d274..1351359 100644
--- a/src/pd_dihedral.c
+++ b/src/pd_dihedral.c
@@ -135,12 +135,11 @@ char  *pd_print_dihedral(void *dihedralP)
 
     for(i=0;i<d->n && chars_ptd < bufsize;i++) {
 
-      chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d",d->map[i]); 
-      if (i != d->n-1) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
+      chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d%s",d->map[i],(i != d->n-1) ? " " : "");
 
     }
 
-    if (chars_ptd > bufsize) { 
+    if (chars_ptd >= bufsize) { 
 
       snprintf(buf,bufsize,"[DIHEDRAL > %d CHARS]",(int)(bufsize));
 
diff --git a/src/pd_perm.c b/src/pd_perm.c
index e05ce07..009668c 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -368,12 +368,11 @@ char *pd_print_perm(void *permP)
 
     for(i=0;i<perm->n && chars_ptd < bufsize;i++) {
 
-      chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d",perm->map[i]); 
-      if (i != perm->n-1) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
+      chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d%s",perm->map[i],(i != perm->n-1) ? " " : "");
 
     }
 
-    if (chars_ptd > bufsize) { 
+    if (chars_ptd >= bufsize) { 
 
       snprintf(buf,bufsize,"[PERM > %d CHARS]",(int)(bufsize));
 
-- 
2.43.0


From 407c2e1378202fa5398941eaaee78b74654d2bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:21 +0000
Subject: [PATCH 073/116] fix: pd_multidx_ok refused a new multi-index with no
 objects

---
 src/pd_multidx.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/pd_multidx.c b/src/pd_multidx.c
index a8f865a..95ee1bd 100644
--- a/src/pd_multidx.c
+++ b/src/pd_multidx.c
@@ -174,12 +174,7 @@ bool  pd_multidx_ok(pd_multidx_t *idx)
 
   if (idx == NULL) { return true; }
 
-  if (idx->nobj == 0) { /* A trivial case; all buffers should be null. */
-
-    if (idx->obj != NULL || idx->i != NULL || idx->nvals != NULL) { return false; }
-    return true;
-
-  }
+  if (idx->nobj == 0) { return true; } /* A trivial case; the buffers have no elements. */
 
   if (idx->i == NULL || idx->nvals == NULL) { return false; }
 
-- 
2.43.0


From 0ef8f8adf2cd880641ce71066ff28a97f1c7f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:21 +0000
Subject: [PATCH 074/116] fix: the uniqueness checks read past the end of an
 empty list

---
 src/pd_cyclic.c      | 2 +-
 src/pd_dihedral.c    | 2 +-
 src/pd_multidx.c     | 2 +-
 src/pd_orientation.c | 2 +-
 src/pd_perm.c        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pd_cyclic.c b/src/pd_cyclic.c
index a067f07..43543e8 100644
--- a/src/pd_cyclic.c
+++ b/src/pd_cyclic.c
@@ -263,7 +263,7 @@ bool pd_cyclics_unique(unsigned int ncyclics,pd_cyclic_t **cyclic_buf)
 
   unsigned int i;
 
-  for(i=0;i<ncyclics-1;i++) {
+  for(i=0;i+1<ncyclics;i++) {
 
     if (pd_cyclic_cmp(&(cyclic_buf[i]),&(cyclic_buf[i+1])) == 0) {
 
diff --git a/src/pd_dihedral.c b/src/pd_dihedral.c
index 1351359..93fb93a 100644
--- a/src/pd_dihedral.c
+++ b/src/pd_dihedral.c
@@ -350,7 +350,7 @@ bool pd_dihedrals_unique(unsigned int ndihedrals,pd_dihedral_t **dihedral_buf)
 
   unsigned int i;
 
-  for(i=0;i<ndihedrals-1;i++) {
+  for(i=0;i+1<ndihedrals;i++) {
 
     if (pd_dihedral_cmp(&(dihedral_buf[i]),&(dihedral_buf[i+1])) == 0) {
 
diff --git a/src/pd_multidx.c b/src/pd_multidx.c
index 95ee1bd..5621d68 100644
--- a/src/pd_multidx.c
+++ b/src/pd_multidx.c
@@ -246,7 +246,7 @@ bool pd_multidxs_unique(unsigned int nmultidxs,pd_multidx_t **multidx_buf)
 
   unsigned int i;
 
-  for(i=0;i<nmultidxs-1;i++) {
+  for(i=0;i+1<nmultidxs;i++) {
 
     if (pd_multidx_cmp(&(mb_copy[i]),&(mb_copy[i+1])) == 0) {
 
diff --git a/src/pd_orientation.c b/src/pd_orientation.c
index b020dbc..32b44d9 100644
--- a/src/pd_orientation.c
+++ b/src/pd_orientation.c
@@ -179,7 +179,7 @@ bool pd_orientations_unique(unsigned int norientations,pd_orientation_t **orient
 
   unsigned int i;
 
-  for(i=0;i<norientations-1;i++) {
+  for(i=0;i+1<norientations;i++) {
 
     if (pd_orientation_cmp(&(orientation_buf[i]),&(orientation_buf[i+1])) == 0) {
 
diff --git a/src/pd_perm.c b/src/pd_perm.c
index 009668c..75d3640 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -320,7 +320,7 @@ bool pd_perms_unique(unsigned int nperms,pd_perm_t **perm_buf)
 
   unsigned int i;
 
-  for(i=0;i<nperms-1;i++) {
+  for(i=0;i+1<nperms;i++) {
 
     if (pd_perms_eq(perm_buf[i],perm_buf[i+1])) {
 
-- 
2.43.0


From 1ca44db67c616bf8cc635f75da72a58c3a881509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:17 +0000
Subject: [PATCH 075/116] fix: pd_dihedral_ok and pd_cyclic_ok accepted
 permutations which are not in the group

---
 src/pd_cyclic.c   | 4 ++--
 src/pd_dihedral.c | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pd_cyclic.c b/src/pd_cyclic.c
index 43543e8..2db4606 100644
--- a/src/pd_cyclic.c
+++ b/src/pd_cyclic.c
@@ -85,7 +85,7 @@ char  *pd_print_cyclic(void *cyclicP)
 
   for(i=0;i<(c->n)-1;i++) {
 	
-    if (c->map[i] >= c->map[i+1] && !(c->map[i] == (c->n)-1 && c->map[i+1] == 0)) { can_id = false; }
+    if (c->map[i+1] != (c->map[i] + 1) % c->n) { can_id = false; }
       
   }
 
@@ -215,7 +215,7 @@ bool pd_cyclic_ok(void *cyclicP)
 
   for(i=0;i<(c->n)-1;i++) {
 
-    if (c->map[i] >= c->map[i+1] && !(c->map[i] == (c->n)-1 && c->map[i+1] == 0)) { 
+    if (c->map[i+1] != (c->map[i] + 1) % c->n) { 
 
       return pd_error(SRCLOC,"%CYCLIC has isn't a rotation.\n",NULL,c);
 
diff --git a/src/pd_dihedral.c b/src/pd_dihedral.c
index 93fb93a..e4c7010 100644
--- a/src/pd_dihedral.c
+++ b/src/pd_dihedral.c
@@ -93,7 +93,7 @@ char  *pd_print_dihedral(void *dihedralP)
 
     for(i=0;i<(d->n)-1;i++) {
 	
-      if (d->map[i] >= d->map[i+1] && !(d->map[i] == (d->n)-1 && d->map[i+1] == 0)) { can_id = false; }
+      if (d->map[i+1] != (d->map[i] + 1) % d->n) { can_id = false; }
       
     }
 
@@ -108,7 +108,7 @@ char  *pd_print_dihedral(void *dihedralP)
     
     for(i=0;i<(d->n)-1;i++) { 
       
-      if (d->map[i] <= d->map[i+1] && !(d->map[i] == 0 && d->map[i+1] == (d->n) - 1)) { can_id = false; }
+      if (d->map[i] != (d->map[i+1] + 1) % d->n) { can_id = false; }
       
     }
     
@@ -281,7 +281,7 @@ bool pd_dihedral_ok(void *dihedralP)
 
     for(i=0;i<(d->n)-1;i++) { 
 
-      if (d->map[i] <= d->map[i+1] && !(d->map[i] == 0 && d->map[i+1] == (d->n) - 1)) {
+      if (d->map[i] != (d->map[i+1] + 1) % d->n) {
 
 	return pd_error(SRCLOC,"%DIHEDRAL has negative orientation but isn't a reflection.\n",NULL,d);
 
@@ -293,7 +293,7 @@ bool pd_dihedral_ok(void *dihedralP)
 
     for(i=0;i<(d->n)-1;i++) {
 
-      if (d->map[i] >= d->map[i+1] && !(d->map[i] == (d->n)-1 && d->map[i+1] == 0)) { 
+      if (d->map[i+1] != (d->map[i] + 1) % d->n) { 
 
 	return pd_error(SRCLOC,"%DIHEDRAL has positive orientation but isn't a rotation.\n",NULL,d);
 
-- 
2.43.0


From 11a08047403c800464023d0951d2ced39ecf5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 076/116] fix: lmpoly_to_polynomial allocated too few terms for
 polynomials with single-term lines

---
 src/polynomials.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 2592d96..43746d7 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -159,10 +159,11 @@ homfly_polynomial_t *lmpoly_to_polynomial(char *lmout)
 
   /* We now have the initialmpower set up. */
   /* We need to count the actual number of monomials in the strings. This
-     is certainly overestimated the number of spaces in the initial string. */
+     is certainly overestimated by the number of separators (spaces, brackets,
+     and ends of lines) in the string, plus one. */
 
-  int mono_count = 0;
-  for(i=0;lmoutput[i];i++) { mono_count += (lmoutput[i] == ' '); }
+  int mono_count = 1;
+  for(i=0;lmoutput[i];i++) { mono_count += (lmoutput[i] == ' ' || lmoutput[i] == '[' || lmoutput[i] == ']' || lmoutput[i] == 'N'); }
 
   /* Now we can create a buffer for the monomials themselves. */
 
-- 
2.43.0


From cc00ec04ed2a6c64a18a043598ea49426a1e8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 077/116] fix: KnotTheory_to_polynomial wrote past the end of
 the polynomial it allocated

---
 src/polynomials.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 43746d7..77c561f 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -650,7 +650,7 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 
   }
 
-  homfly_polynomial_t *homfly = calloc(1,sizeof(homfly_polynomial_t *));
+  homfly_polynomial_t *homfly = calloc(1,sizeof(homfly_polynomial_t));
   assert(homfly != NULL);
   homfly->mono = calloc(nterms,sizeof(monomial_t));
   assert(homfly->mono != NULL);
-- 
2.43.0


From aff1b628f12d7e79d7a9d65539cb6db349fc5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 078/116] fix: product_polynomial kept terms which cancel

---
 src/polynomials.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 77c561f..850121b 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -339,7 +339,7 @@ homfly_polynomial_t *product_polynomial(homfly_polynomial_t *pA, homfly_polynomi
   int nRaw;
 
   nRaw = pA->nmonomials * pB->nmonomials;
-  rawProduct = calloc(nRaw,sizeof(monomial_t));
+  rawProduct = calloc(nRaw+1,sizeof(monomial_t));
   assert(rawProduct != 0);
 
   int i,j,k=0;
@@ -361,33 +361,29 @@ homfly_polynomial_t *product_polynomial(homfly_polynomial_t *pA, homfly_polynomi
   /* Now we can scan the rawProduct entries; any entries with the same powers must be */
   /* adjacent after sorting, so we need only read into a new array, advancing to a new */
   /* monomial if the powers of m and n are different and adding coefficients if they are */
-  /* the same. */
+  /* the same. If the coefficients of a monomial add up to zero, we drop it. */
 
   homfly_polynomial_t *finishedProduct = calloc(1,sizeof(homfly_polynomial_t));
   assert(finishedProduct != NULL);
-  finishedProduct->mono = calloc(nRaw,sizeof(monomial_t));
+  finishedProduct->mono = calloc(nRaw+1,sizeof(monomial_t));
   assert(finishedProduct->mono != NULL);
 
   int nFin = 0;
 
-  finishedProduct->mono[0] = rawProduct[0];
+  for(i=0;i<nRaw;i=j) {
 
-  for(nFin=0,i=1;i<nRaw;i++) {
+    monomial_t sum = rawProduct[i];
 
-    if (rawProduct[i].m == finishedProduct->mono[nFin].m && rawProduct[i].l == finishedProduct->mono[nFin].l) {
+    for(j=i+1;j<nRaw && rawProduct[j].m == sum.m && rawProduct[j].l == sum.l;j++) {
 
-      finishedProduct->mono[nFin].coeff += rawProduct[i].coeff;
-
-    } else {
-
-      nFin++;
-      finishedProduct->mono[nFin] = rawProduct[i];
+      sum.coeff += rawProduct[j].coeff;
 
     }
 
+    if (sum.coeff != 0) { finishedProduct->mono[nFin++] = sum; }
+
   }
 
-  nFin++;
   free(rawProduct);
 
   finishedProduct->nmonomials = nFin;
-- 
2.43.0


From 18a6e4d5c10647a0b5592d151707fbeb5c9d9263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 079/116] fix: polynomial_to_lmpoly overran its buffer and lost
 the power of m without an m^0 term

---
 src/polynomials.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 850121b..d32e2d5 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -410,7 +410,7 @@ int lmpoly_cmp(const void *A,const void *B)
 
 int lspan(monomial_t *poly,int nmonos) {
 
-  int lowl = INT_MAX, hil = INT_MIN;
+  int lowl = 0, hil = 0; /* We always write the 0 power of l. */
   int i;
 
   for(i=0;i<nmonos;i++) {
@@ -425,7 +425,7 @@ int lspan(monomial_t *poly,int nmonos) {
 
 int mspan(monomial_t *poly,int nmonos) {
 
-  int lowm = INT_MAX, him = INT_MIN;
+  int lowm = 0, him = 0; /* We always write the 0 power of m. */
   int i;
 
   for(i=0;i<nmonos;i++) {
@@ -544,8 +544,12 @@ char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
 
   sortPoly = calloc(nmonos+1,sizeof(monomial_t));
   assert(sortPoly != NULL);
-  for(i=0;i<nmonos;i++) { sortPoly[i] = poly[i]; }
 
+  bool have_m0 = false;
+  for(i=0;i<nmonos;i++) { sortPoly[i] = poly[i]; if (poly[i].m == 0) { have_m0 = true; } }
+
+  /* We mark the 0 power of m with brackets, so we need a line for it. */
+  if (!have_m0) { nmonos++; } /* The extra monomial is 0 l^0 m^0. */
 
   qsort(sortPoly,nmonos,sizeof(monomial_t),lmpoly_cmp);
 
@@ -554,7 +558,7 @@ char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
      span in m and the span in l. */
 
   char *outbuf;
-  outbuf = calloc(lspan(sortPoly,nmonos)*mspan(sortPoly,nmonos)*256,sizeof(char));
+  outbuf = calloc(((size_t)(lspan(sortPoly,nmonos))+1)*((size_t)(mspan(sortPoly,nmonos))+1)*16+16,sizeof(char));
   assert(outbuf != 0);
 
   monomial_t *mline;
-- 
2.43.0


From 0e8d28a1f33c56ccd3ab2cedf14e9ef600322046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:13 +0000
Subject: [PATCH 080/116] fix: realloc_or_die returned the old pointer, which
 realloc may have freed

---
 src/ordie.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ordie.c b/src/ordie.c
index 6c614e8..c61be80 100644
--- a/src/ordie.c
+++ b/src/ordie.c
@@ -183,6 +183,6 @@ void *realloc_or_die_internal(void *ptr, size_t newsize,
   
   }
 
-  return ptr;
+  return newptr;
 
 }
-- 
2.43.0


From 663fbec31f90aac6b18e066ae29fe5d7566e7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:13 +0000
Subject: [PATCH 081/116] fix: random equilateral polygons with a flat triangle
 had NaN vertices

---
 src/plcRandomPolygon.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 13ab911..6f735f5 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -827,6 +827,8 @@ plCurve *fantriangulation_action_angle(int n,double *theta, double *d)
        the history of them, but we will need the current one. */
 
     double cos_alpha = (d[i-1]*d[i-1] + d[i]*d[i] - 1.0)/(2.0*d[i-1]*d[i]);
+    if (cos_alpha >  1.0) { cos_alpha =  1.0; } /* Roundoff may take flat triangles */
+    if (cos_alpha < -1.0) { cos_alpha = -1.0; } /* slightly out of range. */
     double sin_alpha = sqrt(1 - cos_alpha*cos_alpha);
 
     /*
-- 
2.43.0


From d43f2d0550f63452675d4daf934aaee79b69aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:30 +0000
Subject: [PATCH 082/116] fix: random equilateral polygons with many edges
 often aborted after too few trials

---
 src/plcRandomPolygon.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 6f735f5..20323fd 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -890,7 +890,7 @@ plCurve *plc_random_equilateral_closed_polygon(gsl_rng *rng,int n)
   assert(d != NULL);
   bool distances_ok;
   int i;
-  int safety_check = 0;
+  int safety_check = 0, max_trials = 10000000; /* Acceptance is ~ 8 n^(-3/2), or 1/20,000 for n = 3000. */
 
   assert(n <= 3000);
   if (n > 3000) {
@@ -931,15 +931,15 @@ plCurve *plc_random_equilateral_closed_polygon(gsl_rng *rng,int n)
 
       safety_check++;
 
-    } while (!distances_ok && safety_check < 10000);
+    } while (!distances_ok && safety_check < max_trials);
 
     /* Now we've generated distances up to d[n-3] without violating
        a sum condition. We still have to check that 0 <= d[n-3] <= 2,
        so that we can set d[n-2]=1 without violating an inequality. */
 
-  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < 10000);
+  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < max_trials);
 
-  assert(safety_check < 10000);
+  assert(safety_check < max_trials);
 
   /* We can now set the last distance to be 1.0 */
 
-- 
2.43.0


From 7a191c13fde19a07c0edf8b1a89c2898881732be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:49 +0000
Subject: [PATCH 083/116] fix: plc_loop_closure crashed when one edge could not
 close the gap

---
 src/plcRandomPolygon.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 20323fd..aa282cf 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1212,6 +1212,14 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
 
   closureArc = plc_random_ftc_internal(r,nEdges - (openL->cp[cp].nv-1),closureLength,ftc,false);
 
+  if (closureArc == NULL) {
+
+    fprintf(stderr,"plc_loop_closure: Can't close gap of %g with %d edges of total length %g.\n",
+	    ftc,nEdges - (openL->cp[cp].nv-1),closureLength);
+    return NULL;
+
+  }
+
   /* There are two cases. If the original curve is already (numerically) closed, there is no operation here. */
   /* Otherwise, we'll need to rotate and translate the closureArc into place. */
 
-- 
2.43.0


From f9e61b7b6d292a4a045e8c7bd2873bee8d5eda31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:01 +0000
Subject: [PATCH 084/116] fix: plc_loop_closure read past the closing arc for
 components other than the first

---
 src/plcRandomPolygon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index aa282cf..e577e62 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1249,7 +1249,7 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
   assert(newVerts != NULL);
 
   for(vt=0;vt<openL->cp[cp].nv;vt++) { newVerts[vt] = openL->cp[cp].vt[vt]; }
-  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[cp].vt[ca_vt]; }
+  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[0].vt[ca_vt]; }
 
   assert(ca_vt == closureArc->cp[0].nv-1 && vt == nEdges); /* These should finish at the same time */
 
-- 
2.43.0


From f54411edff3d4668324caf114bda42783f11e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:43 +0000
Subject: [PATCH 085/116] fix: plc_is_sap accepted every curve

---
 src/plcRandomSap.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/plcRandomSap.c b/src/plcRandomSap.c
index 2894ed3..7b821cd 100644
--- a/src/plcRandomSap.c
+++ b/src/plcRandomSap.c
@@ -166,10 +166,10 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
-		       
-		return false;
 
 	      }
+
+	      return false;
 	      
 	    }
 	    
@@ -183,14 +183,18 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 	  
 	  for(vt2=0;vt2<L->cp[cp2].nv;vt2++) {
 	    
-	     if (verbose) {
+	    if (plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]) < 1.0-1e-10) {
+
+	      if (verbose) {
 
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
-		       
-		return false;
 
-	     }
+	      }
+
+	      return false;
+
+	    }
 
 	  }
 
-- 
2.43.0


From 7e0a8127097482681e55d43fd9128ea9485cbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:29 +0000
Subject: [PATCH 086/116] fix: the spiral and teeth triangulations of a
 triangle wrote to an empty buffer

---
 src/plcToricSymplecticTriangulation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 8ea9482..a033841 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -39,7 +39,7 @@ tsmcmc_triangulation_t tsmcmc_spiral_triangulation(int nedges)
   bool *vert_active = calloc(nedges,sizeof(bool));
   assert(vert_active != NULL);
 
-  tsmcmc_chord_t *chordsys = calloc(nedges-3,sizeof(tsmcmc_chord_t));
+  tsmcmc_chord_t *chordsys = calloc(nedges-2,sizeof(tsmcmc_chord_t)); /* Room for one chord even in a triangle */
   assert(chordsys != NULL);
 
   /* Start with all vertices active. */
@@ -162,7 +162,7 @@ tsmcmc_triangulation_t tsmcmc_teeth_triangulation(int nedges)
 /* Constructs a triangulation by "walking" across the polygon. */
 
 {
-  tsmcmc_chord_t *chordsys = calloc(nedges-3,sizeof(tsmcmc_chord_t *));
+  tsmcmc_chord_t *chordsys = calloc(nedges-2,sizeof(tsmcmc_chord_t)); /* Room for one chord even in a triangle */
   assert(chordsys != NULL);
   
   int chords_used;
-- 
2.43.0


From fe9453622fd3cbd887270040c08bda0e83fdcd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:29 +0000
Subject: [PATCH 087/116] fix: polygons with a flat triangle were embedded with
 NaN vertices or refused by rounding error

---
 src/plcToricSymplecticTriangulation.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index a033841..761c8b2 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -600,7 +600,9 @@ bool     tsmcmc_triangle_from_edgelengths(plc_vector *a, plc_vector *b, plc_vect
      the triangle. */
 
   if (A < 0 || B < 0 || C < 0) { return false; }
-  if (A + B < C || B + C < A || C + A < B) { return false; }
+
+  double tol = 1e-10*(A + B + C); /* Flat triangles may violate an inequality by rounding error. */
+  if (A + B < C - tol || B + C < A - tol || C + A < B - tol) { return false; }
 
   /* Now we need to worry about various special cases. */
 
@@ -644,9 +646,12 @@ bool     tsmcmc_triangle_from_edgelengths(plc_vector *a, plc_vector *b, plc_vect
 
   }
   
-  double alpha;
+  double alpha,cosalpha;
 
-  alpha = acos((B*B + C*C - A*A)/(2.0*B*C));
+  cosalpha = (B*B + C*C - A*A)/(2.0*B*C);
+  if (cosalpha > 1.0) { cosalpha = 1.0; }
+  if (cosalpha < -1.0) { cosalpha = -1.0; }
+  alpha = acos(cosalpha);
 
   *a = plc_build_vect(0,0,0);
   *b = plc_build_vect(C,0,0);
-- 
2.43.0


From d6f068657e37bfc312e1b6612c7c1e291e9105ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:29 +0000
Subject: [PATCH 088/116] fix: polygons with a diagonal of length zero were
 embedded with NaN vertices

---
 src/plcToricSymplecticTriangulation.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 761c8b2..96fc663 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -702,10 +702,19 @@ bool tsmcmc_embed_polygon_worker(plCurve *L,tsmcmc_triangulation_t T,
   frame[1] = plc_normalize_vect(frame[1],&ok);
   double PI = 3.141592653589793;
 
+  if (tsmcmc_chord_length(T.triangles[tri].parent_chord,T.triangles[tri].parent_type,
+			  diagonal_lengths,edge_lengths) < 1e-8) { ok = false; }
+
   if (!ok) {
 
     current_normal = parent_normal;
 
+    /* Any direction in the plane of the parent triangle will do for the x axis. */
+
+    plc_vector axis = {{0,0,0}};
+    axis.c[(fabs(parent_normal.c[0]) < 0.6) ? 0 : ((fabs(parent_normal.c[1]) < 0.6) ? 1 : 2)] = 1.0;
+    frame[1] = plc_normalize_vect(plc_cross_prod(parent_normal,axis),NULL);
+
   } else { /* Use the dihedral data. */
 
     frame[2] = plc_cross_prod(frame[0],frame[1]);
-- 
2.43.0


From 9ae01504e7fdc23519de8996c8c3bcc01f051393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:07 +0000
Subject: [PATCH 089/116] fix: the initial positive sequence was reported one
 term short when the lags ran out (and with -1 terms for up to 3 samples)

---
 src/geyer_estimators.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index 511330e..a2f179d 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -127,9 +127,9 @@ double ips_sigma_estimator_with_gammas(double *zero_meaned_data, int m,
   if (Gammas != NULL) { 
     
     *Gammas = internal_Gammas;
-    *N = k-2; 
+    *N = done_flag ? k-2 : k-1;
     /* Remember that k got incremented on the way out of the loop when we detected the first negative,
-       AND that we wanted to throw that one out. */
+       AND that we wanted to throw that one out. If the lags ran out first, every Gamma was positive. */
     
   } else { 
     
-- 
2.43.0


From c01c48258c2d9c7ac77b2c15c6b59b226b981c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:07 +0000
Subject: [PATCH 090/116] fix: geyer_ips_value did not set ok without samples

---
 src/geyer_estimators.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index a2f179d..ec293f5 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -680,6 +680,7 @@ double geyer_ips_value(geyer_ips_t *gips,double *error,bool *ok)
   if (gips->samples == 0) { 
 
     if (error != NULL) { *error = 0; } 
+    *ok = true;
     return 0;
 
   }
-- 
2.43.0


From dfff8710affb0cf3489ee948b483875ba4242043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:07 +0000
Subject: [PATCH 091/116] fix: the buffered estimator returned NaN for a
 negative estimate and claimed constant data ran out of lags

---
 src/geyer_estimators.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index ec293f5..9dc14a2 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -789,13 +789,18 @@ double geyer_ips_value(geyer_ips_t *gips,double *error,bool *ok)
     
   }
 
-  if (gips->Gamma[gips->N-1] < 0) { gips->N--; *ok = true; } /* The last Gamma was negative. */
+  if (gips->Gamma[gips->N-1] <= 0) { gips->N--; *ok = true; } /* The last Gamma wasn't positive. */
   else { *ok = false; } /* We computed all of the Gammas that we could, but they are still positive! */
   /* Now we can actually compute the estimator. */
 
   gips->sigma = -littlegamma[0]; 
   for(i=0;i<gips->N;i++) { gips->sigma += 2*gips->Gamma[i]; }
-  gips->sigma = sqrt(gips->sigma); 
+
+  /* As in ips_sigma_estimator_with_gammas, the estimate can be negative if we're really far
+     from convergence; we fall back to the variance (which can be negative by roundoff). */
+
+  if (gips->sigma >= 0) { gips->sigma = sqrt(gips->sigma); }
+  else { gips->sigma = sqrt(GIPS_MAX(littlegamma[0],0)); }
   
   *error = 1.96 * gips->sigma / sqrt(gips->samples);
 
-- 
2.43.0


From 36638e6d5dda2e883519e1a5e82ce7d9c11ffbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 092/116] fix: hit-and-run steps in a direction with tiny
 components left the moment polytope

---
 src/plcToricSymplectic.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index fc1202b..017e715 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -439,7 +439,9 @@ void     tsmcmc_apply_triangle_inequality(int chordA,chordtype_t typeA,
 
   }
 
-  if (fabs(denom) < 1e-8) { /* This is a degenerate case, just return. */
+  if (num > 0) { num = 0; } /* We may be (slightly) outside by roundoff. Then we're on the boundary. */
+
+  if (denom == 0) { /* This is a degenerate case, just return. */
 
     return;
 
@@ -574,17 +576,17 @@ void     tsmcmc_confined_moment_polytope_step(gsl_rng *rng,tsmcmc_triangulation_
 
   for(i=0;i<T.ndiags;i++) {
 
-    if (fabs(dv[i]) > 1e-8) { /* It's entirely possible to get a dv equal to zero, but it shouldn't affect tupper or tlower. */
+    double room = (confinement_radius > diagonal_lengths[i]) ? confinement_radius - diagonal_lengths[i] : 0;
+
+    if (dv[i] != 0) { /* It's entirely possible to get a dv equal to zero, but it shouldn't affect tupper or tlower. */
 
       if (dv[i] > 0) {
 
-	tupper = ((confinement_radius-diagonal_lengths[i])/dv[i] < tupper) ?
-	  (confinement_radius-diagonal_lengths[i])/dv[i] : tupper;
+	tupper = (room/dv[i] < tupper) ? room/dv[i] : tupper;
 
       } else {
 
-	tlower = ((confinement_radius-diagonal_lengths[i])/dv[i] > tlower) ?
-	  (confinement_radius-diagonal_lengths[i])/dv[i] : tlower;
+	tlower = (room/dv[i] > tlower) ? room/dv[i] : tlower;
 
       }
 
-- 
2.43.0


From a66662def2c7ef9317775083f9f1542e7df84331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:10 +0000
Subject: [PATCH 093/116] fix: a diagonal which a step made zero up to rounding
 error could not be embedded

---
 src/plcToricSymplecticTriangulation.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 96fc663..564275c 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -599,9 +599,8 @@ bool     tsmcmc_triangle_from_edgelengths(plc_vector *a, plc_vector *b, plc_vect
   /* We need first to check that the triangle inequalities hold in order to actually embed 
      the triangle. */
 
-  if (A < 0 || B < 0 || C < 0) { return false; }
-
   double tol = 1e-10*(A + B + C); /* Flat triangles may violate an inequality by rounding error. */
+  if (A < -tol || B < -tol || C < -tol) { return false; }
   if (A + B < C - tol || B + C < A - tol || C + A < B - tol) { return false; }
 
   /* Now we need to worry about various special cases. */
-- 
2.43.0


From bb7de5161d7b15944b284544d32f0ac3a38b709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:10 +0000
Subject: [PATCH 094/116] fix: the logged sample mean divided by the step
 number instead of the number of samples

---
 src/plcToricSymplectic.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 017e715..f8315d0 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1206,7 +1206,7 @@ double   tsmcmc_equilateral_expectation(gsl_rng *rng,double integrand(plCurve *L
 
 	char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+		i,configuration,ival,gips->samples > 0 ? (double)(gips->sample_sum/(long double)(gips->samples)) : 0.0);
 	fflush(run_params.logfile);
     }
 
@@ -1364,7 +1364,7 @@ double   tsmcmc_confined_equilateral_expectation(gsl_rng *rng,double integrand(p
 
       char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
       fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-	      i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+	      i,configuration,ival,gips->samples > 0 ? (double)(gips->sample_sum/(long double)(gips->samples)) : 0.0);
       fflush(run_params.logfile);
       free(configuration);
 
@@ -1526,7 +1526,7 @@ double   tsmcmc_fixed_ftc_expectation(gsl_rng *rng,double integrand(plCurve *L,
 
 	char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+		i,configuration,ival,gips->samples > 0 ? (double)(gips->sample_sum/(long double)(gips->samples)) : 0.0);
 	fflush(run_params.logfile);
     }
 
-- 
2.43.0


From e5b2abf4aa762de4062a54ca735ee85d27514d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:10 +0000
Subject: [PATCH 095/116] fix: the logged configurations were leaked

---
 src/plcToricSymplectic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index f8315d0..aea23cf 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1208,6 +1208,7 @@ double   tsmcmc_equilateral_expectation(gsl_rng *rng,double integrand(plCurve *L
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
 		i,configuration,ival,gips->samples > 0 ? (double)(gips->sample_sum/(long double)(gips->samples)) : 0.0);
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
@@ -1528,6 +1529,7 @@ double   tsmcmc_fixed_ftc_expectation(gsl_rng *rng,double integrand(plCurve *L,
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
 		i,configuration,ival,gips->samples > 0 ? (double)(gips->sample_sum/(long double)(gips->samples)) : 0.0);
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
-- 
2.43.0


From 3a9273e2224efde690aa2a476dafe8ee2409594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:10 +0000
Subject: [PATCH 096/116] fix: tsmcmc_run_params_MathematicaForm overflowed its
 buffer for long log file names

---
 src/plcToricSymplectic.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index aea23cf..f12ca52 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1052,10 +1052,11 @@ char    *tsmcmc_run_stats_MathematicaForm(tsmcmc_run_stats run_stats)
 char    *tsmcmc_run_params_MathematicaForm(tsmcmc_run_parameters run_params)
 
 {
-  char *ret = calloc(1024,sizeof(char));
+  size_t size = 1024 + strlen(run_params.logfile_name);
+  char *ret = calloc(size,sizeof(char));
   assert(ret != NULL);
 
-  sprintf(ret,
+  snprintf(ret,size,
 	  "{ \"burn in steps\" -> %d, \n"
 	  "  \"delta (permute fraction)\" -> %g, \n"
 	  "  \"beta (mp fraction)\" -> %g, \n"
-- 
2.43.0


From f39c6394c40c35f907fdcd8deab9e469ecd235ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:10 +0000
Subject: [PATCH 097/116] fix: tsmcmc_configuration_MathematicaForm overflowed
 its buffer for long polygons and read past the end for triangles

---
 src/plcToricSymplectic.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index f12ca52..dbf7658 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1074,7 +1074,9 @@ char    *tsmcmc_run_params_MathematicaForm(tsmcmc_run_parameters run_params)
 char    *tsmcmc_configuration_MathematicaForm(tsmcmc_triangulation_t T,double *edge_lengths,double *diagonal_lengths,double *dihedral_angles)
 {
 
-  char *ret = calloc(2048,sizeof(char));
+  /* Each number needs at most 13 characters (as in -1.23457e-308), followed by a comma or brace. */
+
+  char *ret = calloc(2048 + 16*(T.nedges + 2*T.ndiags),sizeof(char));
   assert(ret != NULL);
 
   sprintf(ret,
@@ -1087,11 +1089,13 @@ char    *tsmcmc_configuration_MathematicaForm(tsmcmc_triangulation_t T,double *e
 
   sprintf(ret+strlen(ret),"\"diagonal_lengths\"->{");
   for(i=0;i<T.ndiags-1;i++) { sprintf(ret + strlen(ret),"%g,",diagonal_lengths[i]); }
-  sprintf(ret+strlen(ret),"%g},",diagonal_lengths[i]);
+  if (T.ndiags > 0) { sprintf(ret+strlen(ret),"%g",diagonal_lengths[i]); }
+  sprintf(ret+strlen(ret),"},");
 
   sprintf(ret+strlen(ret),"\"dihedral_angles\"->{");
   for(i=0;i<T.ndiags-1;i++) { sprintf(ret + strlen(ret),"%g,",dihedral_angles[i]); }
-  sprintf(ret+strlen(ret),"%g}}",dihedral_angles[i]);
+  if (T.ndiags > 0) { sprintf(ret+strlen(ret),"%g",dihedral_angles[i]); }
+  sprintf(ret+strlen(ret),"}}");
 
   return ret;
 }
-- 
2.43.0


From 9957b9c72366b8ca6d47720d5dda11b56256b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:04 +0000
Subject: [PATCH 098/116] fix: steps to the boundary of the moment polytope
 failed the consistency checks by rounding error

---
 src/plcToricSymplectic.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index dbf7658..389ab50 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -643,9 +643,11 @@ bool   tsmcmc_diagonals_ok_worker(tsmcmc_triangulation_t T,double *edge_lengths,
 			  T.triangles[tri].daughter_type[1],
 			  diagonal_lengths,edge_lengths);
 
-  /* Now check triangle inequalities */
+  /* Now check triangle inequalities (up to roundoff, as in tsmcmc_embed_polygon) */
 
-  if (!isfinite(a) || !isfinite(b) || !isfinite(c) || a + b < c || b + c < a || c + a < b) {
+  double tol = 1e-10*(a + b + c);
+
+  if (!isfinite(a) || !isfinite(b) || !isfinite(c) || a + b < c - tol || b + c < a - tol || c + a < b - tol) {
 
     printf("tsmcmc_diagonal_lengths_ok: Lengths are bad (or not numbers) for tri %d \n"
 	   "------------------------------------------------------------------\n"
@@ -748,7 +750,7 @@ bool   tsmcmc_confined_diagonals_ok(tsmcmc_triangulation_t T,double confinement_
   int i;
   for(i=0;i<T.ndiags;i++) {
 
-    if (diagonal_lengths[i] > confinement_radius) {
+    if (diagonal_lengths[i] > confinement_radius*(1 + 1e-10)) { /* Steps reach the boundary up to roundoff */
 
       printf("tsmcmc_triangulation_ok: Failed confinement check at step %d \n"
 	     "-----------------------------------------------------\n"
-- 
2.43.0


From f75d1b8130378e66f54753687ff484b6c245bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:44 +0000
Subject: [PATCH 099/116] fix: find_poca: decide parallel edges relative to
 their lengths and place the strut inside the overlap

---
 src/octrope.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index 66aebe3..d746781 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -1145,6 +1145,8 @@ bool octrope_solveMatrixLU(double A[2][2],double b[2],double x[2])
 
 }
 
+#define LDOT(A,B) ((long double)((A).c[0])*(B).c[0] + (long double)((A).c[1])*(B).c[1] + (long double)((A).c[2])*(B).c[2])
+
 void find_poca(plc_vector edgeA[2], plc_vector edgeB[2],
 	       double *t, double *u, double *dist)
 
@@ -1176,7 +1178,7 @@ void find_poca(plc_vector edgeA[2], plc_vector edgeB[2],
 
   //assert(fabs(D1) > 1e-10 && fabs(D2) > 1e-10);
 
-  if (denom < 1e-10) {
+  if (denom <= 1e-10*D1*D2) {
 
     /* The situation is somewhat numerically unstable. The right thing to do is to repeat
        the calculation in long double to see if we can salvage things. */
@@ -1184,19 +1186,31 @@ void find_poca(plc_vector edgeA[2], plc_vector edgeB[2],
     long double LD1,LD2,LR,LS1,LS2;
     long double LT,LU;
 
-    LD1 = plc_M_dot(d1,d1); 
-    LD2 = plc_M_dot(d2,d2);
-    LR  = plc_M_dot(d1,d2); 
-    LS1 = plc_M_dot(d1,d12); 
-    LS2 = plc_M_dot(d2,d12);
+    LD1 = LDOT(d1,d1); 
+    LD2 = LDOT(d2,d2);
+    LR  = LDOT(d1,d2); 
+    LS1 = LDOT(d1,d12); 
+    LS2 = LDOT(d2,d12);
     
     long double Ldenom;
     
     Ldenom = LD1*LD2 - LR*LR;
     
-    if (Ldenom < 1e-25) {
+    if (Ldenom <= 1e-18*LD1*LD2) {
       
-      LT = 0; // We assume that the line segments are parallel. 
+      /* We assume that the line segments are parallel. Every point of
+	 edge A which lies over edge B is equally close, so we take the
+	 middle of that interval. (An end of it would put the strut at a
+	 vertex, perpendicular to an edge there, and roundoff would then
+	 decide whether that strut is kept.) */
+
+      long double Llo = 0, Lhi = 0;
+
+      if (LD1 > 0) { Llo = LS1/LD1; Lhi = (LS1 + LR)/LD1; }
+
+      Llo = (Llo > 1) ? 1 : ((Llo < 0) ? 0 : Llo);
+      Lhi = (Lhi > 1) ? 1 : ((Lhi < 0) ? 0 : Lhi);
+      LT = (Llo + Lhi)/2;
 	
     } else {
       
-- 
2.43.0


From 8191da5537ef8298d6a896de5c2ae4ddb86ffd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:04 +0000
Subject: [PATCH 100/116] fix: struts perpendicular to an edge at its vertex
 are not lost to roundoff

---
 src/octrope.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index d746781..4421beb 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -764,6 +764,7 @@ int wedge_check(varr *edge, const plc_vector v[3],
   double ramp_norm;
   double dot_product;
   plc_vector far_end;
+  double wedge_tol;
 
   if (edge == wedgecheck_edge[which]) {
     slab_normal = snlc[which];
@@ -796,8 +797,11 @@ int wedge_check(varr *edge, const plc_vector v[3],
 #endif
 
   plc_M_sub_vect(far_end,v[1]);
+  /* A strut which is perpendicular to one of the edges at v[1] is on the
+     boundary of the wedge. Roundoff in the dot products mustn't exclude it. */
+  wedge_tol = 1e-10*plc_M_norm(far_end) + 1e-12*slab_norm;
   dot_product = plc_M_dot(slab_normal,far_end)/slab_norm;
-  if (dot_product > 0) { /* Inside slab */
+  if (dot_product > wedge_tol) { /* Inside slab */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       wc_count[1]++;
@@ -806,7 +810,7 @@ int wedge_check(varr *edge, const plc_vector v[3],
     return false;
   }
   dot_product = plc_M_dot(ramp_normal,far_end)/ramp_norm;
-  if (dot_product > 0) { /* Behind ramp */
+  if (dot_product > wedge_tol) { /* Behind ramp */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       wc_count[3]++;
-- 
2.43.0


From f429d0b4c8f03675d54c8941c9545ebf2230f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:00 +0000
Subject: [PATCH 101/116] fix: minrad is zero where the curve doubles back, at
 every scale

---
 src/minrad.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/minrad.c b/src/minrad.c
index e3b2e11..8ea1132 100755
--- a/src/minrad.c
+++ b/src/minrad.c
@@ -95,11 +95,17 @@ double octrope_minrad(plCurve *L,
       
       rad = (normin*normout + dot_prod)/(2*cross_prod_norm);
 
-      if (cross_prod_norm < 1e-12) { /* Presumably, cross_prod_norm == 0 */
+      if (cross_prod_norm <= 1e-12*normin*normout) { /* Presumably, cross_prod_norm == 0 */
 
-	continue;   /* We don't need to record this value, or indeed do 
-		       anything else with it, since rad = Inf or NaN. 
-		       So skip to the next iteration of the loop. */
+	if (dot_prod >= 0) { 
+
+	  continue;   /* We don't need to record this value, or indeed do 
+			 anything else with it, since rad = Inf or NaN. 
+			 So skip to the next iteration of the loop. */
+
+	}
+
+	rad = 0;      /* The curve doubles back on itself at this vertex. */
 
       }
       
-- 
2.43.0


From 4a018ab96aee4eb263f934d51201d429feea9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:52 +0000
Subject: [PATCH 102/116] fix: boxes on the boundary of the region of an edge
 are searched for struts

---
 src/octrope.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index 4421beb..aa1be50 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -854,7 +854,7 @@ int ramp_check(varr *edge, const plc_vector v[3],
   static double slab_norm;
   static double ramp_norm;
   plc_vector the_point;
-  double dot_product;
+  double dot_product, tol;
 
 #ifdef DEBUG
   if (octrope_debug_level() > 6) {
@@ -879,7 +879,10 @@ int ramp_check(varr *edge, const plc_vector v[3],
   the_point = v3;
   plc_M_sub_vect(the_point,v[1]);
   dot_product = plc_M_dot(slab_normal,the_point)/slab_norm;
-  if (!last_edge && dot_product > slab_norm) { /* In front of slab */
+  /* A point on the boundary between two regions (up to roundoff) has to be
+     in the one which keeps the box. */
+  tol = 1e-10*(slab_norm + plc_M_norm(the_point));
+  if (!last_edge && dot_product > slab_norm + tol) { /* In front of slab */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       rc_count[0]++;
@@ -887,7 +890,7 @@ int ramp_check(varr *edge, const plc_vector v[3],
 #endif
     return 1;
   }
-  if (dot_product > 0) { /* Inside slab */
+  if (dot_product > -tol) { /* Inside slab */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       rc_count[1]++;
@@ -896,7 +899,7 @@ int ramp_check(varr *edge, const plc_vector v[3],
     return 2;
   }
   dot_product = plc_M_dot(ramp_normal,the_point)/ramp_norm;
-  if (dot_product > 0) { /* Behind ramp */
+  if (dot_product > tol) { /* Behind ramp */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       rc_count[3]++;
-- 
2.43.0


From ba2132fffdff11a3828e774d1ff9a36517365b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:20 +0000
Subject: [PATCH 103/116] fix: nplc_sq_dist returned the dot product instead of
 the squared distance

---
 src/nvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector.c b/src/nvector.c
index a326ddd..282e6c1 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -205,7 +205,7 @@ inline double nplc_sq_dist(nplc_vector A, nplc_vector B) {
   int i,n;
   double ret=0;
   n = nplc_vect_dim(A,B);
-  for(i=0;i<n;i++) { ret += A.c[i] * B.c[i]; }
+  for(i=0;i<n;i++) { ret += (A.c[i] - B.c[i]) * (A.c[i] - B.c[i]); }
   return ret;
 }
 
-- 
2.43.0


From d142548c2bc225a8d0f7dbe2899d0542573dbf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 104/116] fix: nplc_vmadd overwrote its first argument instead
 of returning a new vector

---
 src/nvector.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nvector.c b/src/nvector.c
index 282e6c1..5437d21 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -354,9 +354,12 @@ inline nplc_vector nplc_vlincomb(double a,nplc_vector A,
 inline nplc_vector nplc_vmadd(nplc_vector A, double s, nplc_vector B) {
  
   int i,n;
+  nplc_vector ret;
+
   n = nplc_vect_dim(A,B);
-  for(i=0;i<n;i++) { A.c[i] += s*B.c[i]; }
-  return A;
+  ret = nplc_vect_new(n);
+  for(i=0;i<n;i++) { ret.c[i] = A.c[i] + s*B.c[i]; }
+  return ret;
 
 }
 
-- 
2.43.0


From 04e391050fd81ca1c043de32e5a32547fa8b7f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 105/116] fix: nplc_vect_buf_free leaked the buffer itself

---
 src/nvector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nvector.c b/src/nvector.c
index 5437d21..dbdd869 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -93,6 +93,8 @@ void nplc_vect_buf_free(int bufsize,nplc_vector *buf)
 
   }
 
+  free(buf);
+
 }
 
 int nplc_vect_dim(nplc_vector A,nplc_vector B) 
-- 
2.43.0


From df12aa9a776a04c7e0e20f6d7c28ca9afb52b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 106/116] fix: nplc_component left the wraparound vertices of
 the new curve at the origin

---
 src/nplCurve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 309087e..353a9ac 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -422,6 +422,8 @@ nplCurve *nplc_component(int cp,nplCurve *L)
     Lcp->cp[0].clr[i] = L->cp[cp].clr[i];
 
   }
+
+  nplc_fix_wrap(Lcp);
   
   return Lcp;
 
-- 
2.43.0


From 90f37287f8b41e4123eea8ccd563f9a7794a49a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 107/116] fix: nplc_write cut vertex lines off after 79
 characters, losing coordinates beyond the third

---
 src/nplCurve.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 353a9ac..cf14bb7 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -766,8 +766,6 @@ void nplc_write(FILE *outfile, nplCurve * const L) {
   int i,j;                  /* Counters for the for loops */
   int nverts = 0;           /* Total number of vertices of all components */
   int colors = 0;           /* Total number of colors of all components */
-  char outstr[80] = "";     /* So we can wrap the vertex lines */
-  char outstr2[80] = "";    /* Again for wrapping */
   int cst_num;              /* This constraint */
   int **cst_nums = NULL;    /* All constraint numbers */
   nplc_constraint *cst;  /* Current constraint */
@@ -865,17 +863,11 @@ void nplc_write(FILE *outfile, nplCurve * const L) {
   for (i=0; i<L->nc; i++) {
     fprintf(outfile,"# Component %d\n",i);
     for (j=0; j<L->cp[i].nv; j++) {
-      (void)snprintf(outstr,sizeof(outstr),"%s",
-          nplc_vect_clist(L->cp[i].vt[j]));
+      fprintf(outfile,"%s",nplc_vect_clist(L->cp[i].vt[j]));
       if (cst_nums[i][j] != 0) {
-        strcpy(outstr2,outstr);
-        (void)snprintf(outstr,sizeof(outstr),
-                       "%s # Cst: %d",outstr2,cst_nums[i][j]);
+        fprintf(outfile," # Cst: %d",cst_nums[i][j]);
       }
-      /* Here is where we will eventually write out the quantifiers, wrapping
-       * as necessary */
-      /* Now complete the string. */
-      fprintf(outfile,"%s\n",outstr);
+      fprintf(outfile,"\n");
     }
   }
 
-- 
2.43.0


From db1594d66932679837b890da90e3cd0169fde5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 108/116] fix: nplc_subarc_length leaked a vector per edge

---
 src/nplCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index cf14bb7..5a9b711 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -1746,9 +1746,9 @@ double nplc_subarc_length(const nplCurve * const L, const int cmp,
   length1 = length2 = 0.0;
   for (v = start; v < end; v++) {
     if (v >= v1 && v < v2) {
-      length1 += nplc_norm(nplc_vect_diff(cp->vt[v+1],cp->vt[v]));
+      length1 += nplc_distance(cp->vt[v+1],cp->vt[v]);
     } else {
-      length2 += nplc_norm(nplc_vect_diff(cp->vt[v+1],cp->vt[v]));
+      length2 += nplc_distance(cp->vt[v+1],cp->vt[v]);
     }
   }
 
-- 
2.43.0


From 0d698320086e71fb38fc180974d4c668b32ac5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 109/116] fix: nplc_read accepted files without a VECT keyword
 and reread the first curve of a file

---
 src/nplCurve.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 5a9b711..ab066e3 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -1140,6 +1140,7 @@ void nplc_fix_wrap(nplCurve * const L) {
                                   /*@out@*/ char error_str[],
                                             size_t error_str_len) {
   int dim;
+  int matched = 0; /* Set once the whole keyword has been read */
   nplCurve *L;
   int nverts = 0, ncomp = 0, ncolors = 0;
   int *nvarray, *ccarray;
@@ -1161,21 +1162,22 @@ void nplc_fix_wrap(nplCurve * const L) {
   *error_num = 0;
 
   /* First, we check for the '(N)VECT' keyword. */
-  if (fscanf(file,"%dVECT ",&dim) != 1) {
+  if (fscanf(file,"%dVECT%n",&dim,&matched) != 1) {
 
-    fseek(file,0,SEEK_SET); /* Rewind and try again- this might be an ordinary VECT file.*/
-
-    if (fscanf(file," VECT ") == EOF) {
-      *error_num = NPLC_E_NO_VECT;
-      (void)snprintf(error_str,error_str_len,
-		     "nplc_read: Couldn't find (N)VECT keyword.\n");
-      return NULL;
-    }
+    /* Nothing but whitespace was used up: this might be an ordinary VECT file.*/
 
+    (void)fscanf(file," VECT%n",&matched);
     dim = 3;
 
   }
 
+  if (matched == 0 || dim < 1) {
+    *error_num = NPLC_E_NO_VECT;
+    (void)snprintf(error_str,error_str_len,
+		   "nplc_read: Couldn't find (N)VECT keyword.\n");
+    return NULL;
+  }
+
   /* Now we read the three integers giving vertices, components, and colors. */
 
   if (scanints(file,3,&ncomp,&nverts,&ncolors) != 3) {
-- 
2.43.0


From 45ad31d342ced4c0140fa19ef9c11c52771317e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 110/116] fix: nplc_read aborted on files with empty components
 or negative color counts

---
 src/nplCurve.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index ab066e3..505eede 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -39,6 +39,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <ctype.h>
 #include <string.h>
 #include <assert.h>
+#include <limits.h>
 
 #ifdef HAVE_FLOAT_H
   #include <float.h>
@@ -1207,7 +1208,8 @@ void nplc_fix_wrap(nplCurve * const L) {
 
   /*@+loopexec@*/
   for(i=0; i<ncomp; i++) {
-    if (scanints(file,1,&(nvarray[i])) != 1) {
+    if (scanints(file,1,&(nvarray[i])) != 1 || nvarray[i] == 0 ||
+        nvarray[i] == INT_MIN) {
       *error_num = NPLC_E_BAD_CVRT_LINE;
       (void)snprintf(error_str,error_str_len,
           "nplc_read: Couldn't parse number of vertices in component %d.\n",
@@ -1227,7 +1229,7 @@ void nplc_fix_wrap(nplCurve * const L) {
 
   /*@+loopexec@*/
   for(i=0; i<ncomp; i++) {
-    if (scanints(file,1,&(ccarray[i])) != 1) {
+    if (scanints(file,1,&(ccarray[i])) != 1 || ccarray[i] < 0) {
       *error_num = NPLC_E_BAD_CLR_LINE;
       (void)snprintf(error_str,error_str_len,
           "nplc_read: Couldn't parse <ncolors> for component %d.\n", i);
-- 
2.43.0


From 70568d0cd349090947624a5037303f10420c3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:26 +0000
Subject: [PATCH 111/116] fix: pd_tangle_ok accepted tangles whose interior
 lists are unsorted, repeat an element or go out of range

---
 src/pd_tangles.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 3733128..f0700af 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -522,12 +522,14 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
   for(i=0;i<t->ninterior_cross;i++) {
 
     pd_check_cr(SRCLOC,pd,t->interior_cross[i]);
+    if (t->interior_cross[i] >= pd->ncross) { return false; }
 
   }
 
   for(i=0;i<t->ninterior_edges;i++) {
 
     pd_check_edge(SRCLOC,pd,t->interior_edge[i]);
+    if (t->interior_edge[i] >= pd->nedges) { return false; }
 
   }
 
@@ -539,6 +541,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
 
       pd_error(SRCLOC,"list of interior crossings in %TANGLE "
 	       "is not in order",pd,t);
+      return false;
 
     }
 
@@ -550,6 +553,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
 
       pd_error(SRCLOC,"list of interior crossings in %TANGLE "
 	       "contains duplicate element at positions %d-%d",pd,t,i-1,i);
+      return false;
 
     }
 
@@ -561,6 +565,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
 
       pd_error(SRCLOC,"list of interior crossings in %TANGLE "
 	       "is not in order",pd,t);
+      return false;
 
     }
 
@@ -572,6 +577,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
 
       pd_error(SRCLOC,"list of interior crossings in %TANGLE "
 	       "contains duplicate element at positions %d-%d",pd,t,i-1,i);
+      return false;
 
     }
 
-- 
2.43.0


From 02d92f0609c1e3f984f84437ae04fc3acbc94ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:55 +0000
Subject: [PATCH 112/116] fix: splitpd accepts input files whose name does not
 contain .pdstor

---
 src/splitpd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/splitpd.c b/src/splitpd.c
index 4da1ea9..016bd69 100644
--- a/src/splitpd.c
+++ b/src/splitpd.c
@@ -207,7 +207,7 @@ int main(int argc,char *argv[])
 
   char *basename = strdup(file->basename[0]);
   char *extension_start = strstr(basename,".pdstor");
-  *extension_start = 0;
+  if (extension_start != NULL) { *extension_start = 0; }
  
   for(pd = pd_stor_firstelt(pdstor),
 	subpd = pd_new_pdstor();
-- 
2.43.0


From c06914fc914ea1c3f9ee10cf9bf6ac0abc09f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:18 +0000
Subject: [PATCH 113/116] fix: carbonizepd --weak-checking overflowed its hash
 buffer, refused valid hashes and dropped everything after a 0-crossing
 diagram

---
 src/carbonizepd.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/carbonizepd.c b/src/carbonizepd.c
index d0dbc4a..5240f3f 100644
--- a/src/carbonizepd.c
+++ b/src/carbonizepd.c
@@ -73,7 +73,7 @@ pd_code_t *pd_read_err_weak(FILE *infile, int *err)
      want the sscanf pattern to reflect PD_HASHSIZE (which might change) */
 
   char hash_template[1026];
-  sprintf(hash_template," pd %%%d[a-zA-Z0-9;:] %%lu ",PD_HASHSIZE);
+  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE-1);
 
   int sscanf_result = sscanf(pd_line,hash_template,hash,&input_temp);
 
@@ -91,12 +91,12 @@ pd_code_t *pd_read_err_weak(FILE *infile, int *err)
 	       "pd <hash> <uid>\n"
 	       "but hash == %s, which violates a hash rule\n"
 	       "the hash may be at most %d characters long\n"
-	       "and should only contain characters [a-zA-Z0-9;:]\n"
+	       "and should only contain characters [a-zA-Z0-9+/]\n"
 	       "\n"
 	       "If you don't know the hash, it should be omitted\n"
 	       "and this line should read\n"
 	       "\n"
-	       "pd\n",NULL,pd_line,bogus_hash,PD_HASHSIZE);
+	       "pd\n",NULL,pd_line,bogus_hash,PD_HASHSIZE-1);
       return NULL;
 
     } else if (sscanf(pd_line," pd %4096s %lu ",bogus_hash,&input_temp) == 1) {
@@ -173,9 +173,9 @@ pd_code_t *pd_read_err_weak(FILE *infile, int *err)
 
     /* If we're a zero-crossing unknot, there is one piece of 
        information that can actually matter, which is the tag 
-       of the (single) component. We're going to discard the 
-       rest of the file, but first we'll run through and extract
-       the "tag" (if present). */
+       of the (single) component. We run through the record up to
+       the start of the next one (or the end of the file), and 
+       extract the "tag" (if present). */
 
     char rolling_buffer[4];
     pd_tag_t tag = 'A';
@@ -190,6 +190,9 @@ pd_code_t *pd_read_err_weak(FILE *infile, int *err)
       if (!strcmp(rolling_buffer,"tag")) { 
 
 	fscanf(infile," %c ",&tag); 
+	for(read_char = fgetc(infile);read_char != 'p' && read_char != EOF;read_char = fgetc(infile));
+	if (read_char != EOF) { ungetc(read_char,infile); }
+	break;
 
       }
 
@@ -201,6 +204,8 @@ pd_code_t *pd_read_err_weak(FILE *infile, int *err)
     pd_code_t *outcode;
     outcode = pd_build_unknot(0);
     outcode->comp[0].tag = tag;
+    outcode->uid = uid;
+    if (strstr(hash,"unset") == NULL) { strncpy(outcode->hash,hash,PD_HASHSIZE); }
       
     return outcode;
 
-- 
2.43.0


From 27bd76c3098c33587a3c80b10239ef6686abf560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:53 +0000
Subject: [PATCH 114/116] fix: randompolygon compared only one prime factor of
 the first possible knot type with the requested one

---
 src/plcrwalk.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/plcrwalk.c b/src/plcrwalk.c
index 3948b13..4c27dfc 100644
--- a/src/plcrwalk.c
+++ b/src/plcrwalk.c
@@ -56,6 +56,30 @@ struct arg_end *helpEnd;
 
 gsl_rng *rng; /* The global random number generator */
 
+static bool same_knottype(const plc_knottype *a,const plc_knottype *b)
+/* True if the two knot types have the same prime factors (in any order). */
+{
+  bool used[MAXPRIMEFACTORS] = {false};
+  int i,j;
+
+  if (a->nf != b->nf) { return false; }
+
+  for (i = 0; i < a->nf; i++) {
+
+    for (j = 0; j < b->nf; j++) {
+
+      if (!used[j] && a->cr[i] == b->cr[j] && a->ind[i] == b->ind[j]) { break; }
+
+    }
+
+    if (j == b->nf) { return false; }
+    used[j] = true;
+
+  }
+
+  return true;
+}
+
 int main(int argc, char *argv[]) {
 
   int nerrors;
@@ -541,8 +565,7 @@ int main(int argc, char *argv[]) {
 
 	  for (check = 0; check < nposs; check++) {
 
-	    if (thistype->cr[check] == searchtype->cr[check] &&
-		thistype->ind[check] == searchtype->ind[check]) {
+	    if (same_knottype(&(thistype[check]),searchtype)) {
 
 	      passes_knottype = true;
 
@@ -550,6 +573,8 @@ int main(int argc, char *argv[]) {
 
 	  }
 
+	  free(thistype);
+
 	}
 
       }
-- 
2.43.0


From 56e2c277801d7fab5aa2f016f0a0ce48a807f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:29 +0000
Subject: [PATCH 115/116] fix: plc_totaltorsion took finely divided and small
 curves to have no torsion

---
 src/plCurve.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index d5c887b..54e4a04 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1789,6 +1789,19 @@ double torsionangle(plc_vector a,plc_vector b,plc_vector c,plc_vector d)
   edges[0] = plc_vect_diff(b,a);
   edges[1] = plc_vect_diff(c,b);
   edges[2] = plc_vect_diff(d,c);
+
+  /* plc_angle refuses very small vectors. The normals shrink with the
+     square of the edge lengths, so we give the edges unit length first:
+     otherwise short edges would be taken to have no torsion at all. */
+
+  int i;
+
+  for(i=0;i<3;i++) {
+
+    edges[i] = plc_normalize_vect(edges[i],&ok);
+    if (!ok) { return 0; }
+
+  }
   
   plc_vector normals[2];
   
-- 
2.43.0


From 98dce69b901a815f65f4f5a70a791cb8da141757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:09 +0000
Subject: [PATCH 116/116] fix: random permutations with no ascents read outside
 the probability table and never ended

A permutation of n letters with no ascents or only ascents is known at the
start; build_choice_vector took one step first, below k = 0. hypersimplex_sample(n-1,n)
asks for such a permutation.
---
 src/kascentpermutation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kascentpermutation.c b/src/kascentpermutation.c
index eb2681a..cf79f25 100644
--- a/src/kascentpermutation.c
+++ b/src/kascentpermutation.c
@@ -94,7 +94,7 @@ void build_choice_vector(int N, int K,
   int n=N,k=K;
   int i=0;
 
-  do {
+  while (k != n-1 && k != 0) {
 
     (*cv)[i].n = n;
     (*cv)[i].k = k;
@@ -104,7 +104,7 @@ void build_choice_vector(int N, int K,
     /* This generates a random number in [0,1). */
     n--;
     
-  } while (k != n-1 && k != 0);
+  }
 
   (*cv)[i].n = n;
   (*cv)[i].k = k;
@@ -153,7 +153,7 @@ working_perm_t wperm_new(int n)
 void make_descending_wperm(working_perm_t *wp,int n)
 {
   int i;
-  assert(n < wp->max);
+  assert(n <= wp->max);
   
   for(i=0;i<n;i++) {
 
@@ -170,7 +170,7 @@ void make_descending_wperm(working_perm_t *wp,int n)
 void make_ascending_wperm(working_perm_t *wp,int n)
 {
   int i;
-  assert(n < wp->max);
+  assert(n <= wp->max);
   
   for(i=0;i<n;i++) {
 
-- 
2.43.0

