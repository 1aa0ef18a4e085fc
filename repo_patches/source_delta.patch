From a021efb215389492e83f1815d5bd019a3cf69e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:15 +0000
Subject: [PATCH 1/9] fix: t8_dtri_is_familypv accepted triangles of wrong
 types and families off the parent's anchor

---
 src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
index 5c2d777..18d1761 100644
--- a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
@@ -652,7 +652,11 @@ t8_dtri_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  if (f[1]->type != 0 && f[2]->type != 1 && f[3]->type != type) {
+  if (f[1]->type != 0 || f[2]->type != 1 || f[3]->type != type) {
+    return 0;
+  }
+  /* the first member of a family is the child at the parent's anchor node */
+  if (compute_cubeid (f[0], level) != 0) {
     return 0;
   }
   /* check whether the coordinates are correct
-- 
2.43.0


From 2106d548ebe996a5626fd8010ef745151286972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:15 +0000
Subject: [PATCH 2/9] fix: t8_dtet_is_familypv ignored the last child's type
 and the parent's anchor

---
 src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
index 3cf1ef0..6d8babc 100644
--- a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
@@ -33,11 +33,15 @@ t8_dtet_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN - 1; local_ind++) {
+  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN; local_ind++) {
     if (f[local_ind]->type != t8_dtet_type_of_child_morton[type][local_ind]) {
       return 0;
     }
   }
+  /* the first member of a family is the child at the parent's anchor node */
+  if (compute_cubeid (f[0], level) != 0) {
+    return 0;
+  }
   /* check whether the coordinates are correct
    * tets 1, 2, 3 and tets 4, 5, 6 have to have the same coordinates.*/
   if (f[1]->x != f[2]->x || f[1]->y != f[2]->y || f[1]->z != f[2]->z || f[1]->x != f[3]->x || f[1]->y != f[3]->y
-- 
2.43.0


From 7155bbb40c319044182779ecb738204cb0fa8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:15 +0000
Subject: [PATCH 3/9] fix: t8_dprism_is_familypv accepted prisms from different
 layers as one family

---
 src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c b/src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c
index b4d3cf5..c96e160 100644
--- a/src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c
@@ -145,6 +145,7 @@ t8_dprism_is_familypv (t8_dprism_t **fam)
     }
     /* Proof for line_family and equality of triangles in both planes */
     if (!(t8_dline_is_familypv ((const t8_dline_t **) line_fam)
+          && (fam[i]->line.x == fam[0]->line.x)
           && (fam[i]->tri.level == fam[i + T8_DTRI_CHILDREN]->tri.level)
           && (fam[i]->tri.type == fam[i + T8_DTRI_CHILDREN]->tri.type)
           && (fam[i]->tri.x == fam[i + T8_DTRI_CHILDREN]->tri.x)
-- 
2.43.0


From c935e2987d8b26214d18decd0fa1b17762bbd017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:15 +0000
Subject: [PATCH 4/9] fix: standalone elements_are_family read the parent of a
 level 0 element

---
 src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
index c11e37c..abb33bf 100644
--- a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
+++ b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
@@ -586,6 +586,10 @@ struct t8_standalone_scheme: public t8_scheme_helpers<TEclass, t8_standalone_sch
     }
 #endif
 
+    /* Level 0 elements have no parent and do not form a family. */
+    if (((const t8_standalone_element<TEclass> *) fam[0])->level == 0) {
+      return 0;
+    }
     t8_standalone_element<TEclass> parent, compare;
     /* Take the parent of the first element as baseline to compare against */
     element_get_parent ((const t8_element_t *) fam[0], (t8_element_t *) &parent);
-- 
2.43.0


From 160af0215aab36279a71c08947aed08e96b722bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:31 +0000
Subject: [PATCH 5/9] fix: standalone scheme: the parent face of a root face is
 the face itself, as documented

---
 src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
index abb33bf..0ba4f3c 100644
--- a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
+++ b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
@@ -844,7 +844,7 @@ struct t8_standalone_scheme: public t8_scheme_helpers<TEclass, t8_standalone_sch
     T8_ASSERT (0 <= face && face < T8_ELEMENT_NUM_FACES[TEclass]);
     const t8_standalone_element<TEclass> *el = (const t8_standalone_element<TEclass> *) elem;
     if (el->level == 0)
-      return -1;
+      return face;
     if constexpr (!T8_ELEMENT_NUM_EQUATIONS[TEclass]) {
       /* Check if the least significant bit of the face normal coord is equal to the face_sign bit to get a valid parent face.*/
       const int least_significant_bit = ((el->coords[face / 2]) >> (T8_ELEMENT_MAXLEVEL[TEclass] - el->level)) % 2;
-- 
2.43.0


From 017a35e267e72064eebf1eb67f46ef1128e0b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:32 +0000
Subject: [PATCH 6/9] fix: default prism scheme: anchor coordinates were always
 zero (integer division by the root length)

---
 .../t8_default/t8_default_prism/t8_default_prism.cxx        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_schemes/t8_default/t8_default_prism/t8_default_prism.cxx b/src/t8_schemes/t8_default/t8_default_prism/t8_default_prism.cxx
index a8ff759..90508ae 100644
--- a/src/t8_schemes/t8_default/t8_default_prism/t8_default_prism.cxx
+++ b/src/t8_schemes/t8_default/t8_default_prism/t8_default_prism.cxx
@@ -391,9 +391,9 @@ t8_default_scheme_prism::element_get_anchor (const t8_element_t *elem, int ancho
 {
   t8_dprism_t *prism = (t8_dprism_t *) elem;
   T8_ASSERT (element_is_valid (elem));
-  anchor[0] = prism->tri.x / T8_DTRI_ROOT_LEN * T8_DPRISM_ROOT_LEN;
-  anchor[1] = prism->tri.y / T8_DTRI_ROOT_LEN * T8_DPRISM_ROOT_LEN;
-  anchor[2] = prism->line.x / T8_DLINE_ROOT_LEN * T8_DPRISM_ROOT_LEN;
+  anchor[0] = prism->tri.x / T8_DPRISM_ROOT_BY_DTRI_ROOT;
+  anchor[1] = prism->tri.y / T8_DPRISM_ROOT_BY_DTRI_ROOT;
+  anchor[2] = prism->line.x / T8_DPRISM_ROOT_BY_DLINE_ROOT;
 }
 
 void
-- 
2.43.0


From 4746a602aa0247e3496393e0a05650b12303f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 7/9] fix: pyramid scheme: descendant at a face was not set
 when the requested level is the element's own

---
 src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
index 7116274..340044f 100644
--- a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
@@ -953,6 +953,7 @@ t8_dpyramid_corner_descendant (const t8_dpyramid_t *p, t8_dpyramid_t *d, const i
     const int child_id = t8_dtet_parenttype_beyid_to_Iloc[p->pyramid.type][corner];
     t8_dpyramid_t tmp;
     t8_dpyramid_copy (p, &tmp);
+    t8_dpyramid_copy (p, d);
     for (int i = p->pyramid.level; i < level; i++) {
       t8_dpyramid_child (&tmp, child_id, d);
       t8_dpyramid_copy (d, &tmp);
-- 
2.43.0


From 7498e189d3e02541097e9c54f6c6882430c43204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:43 +0000
Subject: [PATCH 8/9] fix: quad scheme: transforming a face with equal
 orientation left the level of the output element unset

---
 src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx b/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
index 071b6ac..5b3be48 100644
--- a/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
+++ b/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
@@ -439,7 +439,7 @@ t8_default_scheme_quad::element_transform_face (const t8_element_t *elem1, t8_el
     q = qin;
   }
 
-  p->level = q->level;
+  p->level = qin->level;
   /*
    * The faces of the root quadrant are enumerated like this:
    *
-- 
2.43.0


From 75715f923d7637f46de5b03abc220f9c3e017398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:29 +0000
Subject: [PATCH 9/9] fix: prism entries of t8_face_to_edge_neighbor did not
 name the edge at the given face vertex

---
 src/t8_eclass/t8_eclass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_eclass/t8_eclass.h b/src/t8_eclass/t8_eclass.h
index 82f8369..07ca827 100644
--- a/src/t8_eclass/t8_eclass.h
+++ b/src/t8_eclass/t8_eclass.h
@@ -126,7 +126,7 @@ typedef enum t8_eclass {
   { { 2, 1 }, { 2, 0 }, { 1, 0 } },                                                                       /* triangle */  \
   { { 0, 1, 2, 3 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 }, { 4, 5, 6, 7 }, { 8, 9, 10, 11 }, { 8, 9, 10, 11 } }, /* hex */       \
   { { 0, 1, 2 }, { 0, 3, 4 }, { 1, 3, 5 }, { 2, 4, 5 } },                                                 /* tet */       \
-  { { 1, 2, 4, 5 }, { 0, 2, 3, 5 }, { 0, 1, 3, 4 }, { 6, 7, 8 }, { 6, 7, 8 } },                           /* prism */     \
+  { { 2, 1, 5, 4 }, { 2, 0, 5, 3 }, { 1, 0, 4, 3 }, { 8, 6, 7 }, { 8, 6, 7 } },                           /* prism */     \
   { { -1 } },                                                                                             /* pyramid */   \
 }
 /** Mapping of edge vertex to tree vertex for each eclass. */
-- 
2.43.0

