From 49c7c4678b84904d71726a470efaf994633e4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 01/14] fix: r3d_init_brep crashed on failed allocations, empty
 polyhedra and full vertex buffers

---
 src/r3d.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index bb4abfd..ee5141f 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1066,6 +1066,13 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 	r3d_int nc = 0, ncmax = 0, i, np, nv, nf, vstart, vcur, vnext, pedge, nvkept,
             numvertsincomponent, j;
 
+	// nothing to extract from an empty polyhedron
+	if (nverts <= 0) {
+		*numcomponents = 0;
+		*brep = NULL;
+		return;
+	}
+
 	// make the mapping of equivalent vertex indices
 	r3d_int vertex_map[nverts];
 	vertex_map[0] = 0;
@@ -1101,6 +1108,11 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
         // Lets start with the assumption there will be 2 components
         ncmax = 2;
         breptmp = (r3d_brep *) malloc(ncmax*sizeof(r3d_brep));
+	if (!breptmp) {
+		*numcomponents = 0;
+		*brep = NULL;
+		return;
+	}
 
 	// start at the first vertex
 	vstart = 0;
@@ -1178,6 +1190,7 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 
 			// dynamically allocate the correct size array
 			r3d_int *pvind = (r3d_int *)malloc(nvkept * sizeof(r3d_int));
+			if (!pvind && nvkept > 0) goto outofmemory;
 
 			// copy the working array into the correctly sized array for small
 			// optimized copies, indexed is as fast as memcpy
@@ -1201,7 +1214,7 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 			vstart = nv;
 
 			// find an unwalked edge starting at the this vertex
-			for (np = 0; np < 3; np++) {
+			for (np = 0; nv < nverts && np < 3; np++) {
 				if (edge_marked[nv][np] == 0) {
 					break;
 				}
@@ -1219,7 +1232,9 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 		// create a new brep for packing the component
                 if (nc == ncmax) {
                   ncmax *= 2;
-                  breptmp = (r3d_brep *) realloc(breptmp, ncmax*sizeof(r3d_brep));
+                  r3d_brep *grown = (r3d_brep *) realloc(breptmp, ncmax*sizeof(r3d_brep));
+                  if (!grown) goto outofmemory;
+                  breptmp = grown;
                 }
                 
 		r3d_brep *pbrep = &(breptmp[nc]);
@@ -1230,6 +1245,7 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 		// allocate the vertex array
 		pbrep->vertices =
 				(r3d_rvec3 *)malloc(numvertsincomponent * sizeof(r3d_rvec3));
+		if (!pbrep->vertices) goto outofmemory;
 
 		// use a temp variable to count vertices
 		j = 0;
@@ -1254,9 +1270,18 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 
 		// allocate the brep numvertsperface
 		pbrep->numvertsperface = (r3d_int *)malloc(nf * sizeof(r3d_int));
+		if (!pbrep->numvertsperface) {
+			free(pbrep->vertices);
+			goto outofmemory;
+		}
 
 		// allocate the facinds vectors
 		pbrep->faceinds = (r3d_int **)malloc(nf * sizeof(r3d_int *));
+		if (!pbrep->faceinds) {
+			free(pbrep->vertices);
+			free(pbrep->numvertsperface);
+			goto outofmemory;
+		}
 
 		for (i = 0; i < nf; ++i) {
 			// copy the vertsperface
@@ -1294,7 +1319,14 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 	// the brep's from the working array
 	*numcomponents = nc;
 	*brep = breptmp;
-
+	return;
+
+outofmemory:
+	// release the faces of the unfinished component and all finished components
+	for (i = 0; i < nf; ++i) free(faceinds[i]);
+	r3d_free_brep(&breptmp, nc);
+	*numcomponents = 0;
+	*brep = NULL;
 }
 
 void r3d_print_brep(r3d_brep **brep, r3d_int numcomponents) {
-- 
2.43.0


From aca2387051d03e0bf887bedc91b7e7c6584f68f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 02/14] fix: r3d_is_good and rNd_is_good overran their
 flood-fill stack on large polytopes

---
 src/r3d.c | 2 +-
 src/rNd.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index ee5141f..b40b928 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -479,7 +479,7 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 	r3d_int nvstack;
 	r3d_int va, vb, vc;
 	r3d_int vct[R3D_MAX_VERTS];
-	r3d_int stack[R3D_MAX_VERTS];
+	r3d_int stack[3*R3D_MAX_VERTS];
 	r3d_int regions[R3D_MAX_VERTS];
 
 	// direct access to vertex buffer
diff --git a/src/rNd.c b/src/rNd.c
index e16c071..bdc0bbc 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -321,7 +321,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 	rNd_int v, vc, np, npp, rcur, insubset;
 	rNd_int nvstack;
 	rNd_int vct[RND_MAX_VERTS];
-	rNd_int stack[RND_MAX_VERTS];
+	rNd_int stack[RND_DIM*RND_MAX_VERTS];
 	rNd_int regions[RND_MAX_VERTS];
 	rNd_int subset[RND_DIM-1];
 
-- 
2.43.0


From ba8c69f7a6e826b47e137d138b59d3ede6441ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 03/14] fix: rNd_clamp_ibox overran its plane array when
 clamping on all sides

---
 src/vNd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vNd.c b/src/vNd.c
index 1f8e572..39693f9 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -266,7 +266,7 @@ void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 
 void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
 	rNd_int i, nboxclip;
-	rNd_plane boxfaces[6];
+	rNd_plane boxfaces[2*RND_DIM];
 	nboxclip = 0;
 	memset(boxfaces, 0, sizeof(boxfaces));
 	for(i = 0; i < RND_DIM; ++i) {
-- 
2.43.0


From f3ffb94e40f6aea9e96dda8570fd5903e90d6af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 04/14] fix: r3d_voxelize and r3d_clamp_ibox overran or ignored
 a full vertex buffer

---
 src/v3d.c | 35 ++++++++++++++++++++++++-----------
 src/v3d.h |  6 ++++--
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/v3d.c b/src/v3d.c
index 7e6bcb1..8a71bd9 100644
--- a/src/v3d.c
+++ b/src/v3d.c
@@ -46,6 +46,7 @@
 #include <string.h>
 #include <math.h>
 #include <stdint.h>
+#include <stdio.h>
 
 #define wav(va, wa, vb, wb, vr) {			\
 	vr.x = (wa*va.x + wb*vb.x)/(wa + wb);	\
@@ -54,9 +55,9 @@
 }
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax);
+int r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax);
 
-void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder) {
+int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder) {
 
 	r3d_int i, m, spax, dmax, nstack, siz;
 	r3d_int nmom = R3D_NUM_MOMENTS(polyorder);
@@ -67,7 +68,7 @@ void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rv
 	// return if any parameters are bad 
 	for(i = 0; i < 3; ++i) gridsz.ijk[i] = ibox[1].ijk[i]-ibox[0].ijk[i];	
 	if(!poly || poly->nverts <= 0 || !dest_grid || 
-			gridsz.i <= 0 || gridsz.j <= 0 || gridsz.k <= 0) return;
+			gridsz.i <= 0 || gridsz.j <= 0 || gridsz.k <= 0) return 1;
 	
 	// explicit stack-based implementation
 	// stack size should never overflow in this implementation, 
@@ -115,18 +116,21 @@ void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rv
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		r3d_split_coord(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax);
+		if(!r3d_split_coord(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax))
+			return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(r3d_dvec3));
 		stack[nstack].ibox[1].ijk[spax] -= dmax-dmax/2; 
 		stack[nstack+1].ibox[0].ijk[spax] += dmax/2;
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax) {
+int r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax) {
 
 	// direct access to vertex buffer
-	if(inpoly->nverts <= 0) return;
+	if(inpoly->nverts <= 0) return 1;
 	r3d_int* nverts = &inpoly->nverts;
 	r3d_vertex* vertbuffer = inpoly->verts; 
 	r3d_int v, np, npnxt, onv, vcur, vnext, vstart, pnext, nright, cside;
@@ -149,12 +153,12 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 	if(nright == 0) {
 		*(outpolys[0]) = *inpoly;
 		outpolys[1]->nverts = 0;
-		return;
+		return 1;
 	}
 	if(nright == *nverts) {
 		*(outpolys[1]) = *inpoly;
 		outpolys[0]->nverts = 0;
-		return;
+		return 1;
 	}
 
 	// check all edges and insert new vertices on the bisected edges 
@@ -164,6 +168,12 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 		for(np = 0; np < 3; ++np) {
 			vnext = vertbuffer[vcur].pnbrs[np];
 			if(!side[vnext]) continue;
+			if(*nverts + 2 > R3D_MAX_VERTS) {
+#if !defined(NDEBUG)
+				fprintf(stderr, "r3d_split_coord: Max vertex buffer size exceeded; Increase R3D_MAX_VERTS");
+#endif
+				return 0;
+			}
 			wav(vertbuffer[vcur].pos, -sdists[vnext],
 				vertbuffer[vnext].pos, sdists[vcur],
 				newpos);
@@ -213,6 +223,8 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 	for(v = 0; v < outpolys[1]->nverts; ++v) 
 		for(np = 0; np < 3; ++np)
 			outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
+
+	return 1;
 }
 
 void r3d_get_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_rvec3 d) {
@@ -234,7 +246,7 @@ void r3d_get_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_rvec3 d) {
 	}
 }
 
-void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d) {
+int r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d) {
 	r3d_int i, nboxclip;
 	r3d_plane boxfaces[6];
 	nboxclip = 0;
@@ -243,7 +255,7 @@ void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3
 		if(ibox[1].ijk[i] <= clampbox[0].ijk[i] || ibox[0].ijk[i] >= clampbox[1].ijk[i]) {
 			memset(ibox, 0, 2*sizeof(r3d_dvec3));
 			poly->nverts = 0;
-			return;
+			return 1;
 		}
 		if(ibox[0].ijk[i] < clampbox[0].ijk[i]) {
 			ibox[0].ijk[i] = clampbox[0].ijk[i];
@@ -258,5 +270,6 @@ void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3
 			nboxclip++;
 		}	
 	}
-	if(nboxclip) r3d_clip(poly, boxfaces, nboxclip);
+	if(nboxclip && poly->nverts > 0) return r3d_clip(poly, boxfaces, nboxclip);
+	return 1;
 }
diff --git a/src/v3d.h b/src/v3d.h
index 5dc8a1e..72182a3 100644
--- a/src/v3d.h
+++ b/src/v3d.h
@@ -81,8 +81,9 @@ extern "C" {
  * Order of the polynomial density field to voxelize. 
  * 0 for constant (1 moment), 1 for linear (4 moments), 2 for quadratic (10 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder);
+int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing,
@@ -100,8 +101,9 @@ void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rv
  * \param [in] d 
  * The cell spacing of the grid. The origin of the grid is assumed to lie at the origin in space.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d);
+int r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing.
-- 
2.43.0


From f4e729ade909fae12b4530cbbe6aa86db772786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 05/14] fix: 2D clip, split, init and rasterize overran a full
 vertex buffer

---
 src/r2d.c | 35 ++++++++++++++++++++++++++++++-----
 src/r2d.h |  9 ++++++---
 src/v2d.c | 35 ++++++++++++++++++++++++-----------
 src/v2d.h |  6 ++++--
 4 files changed, 64 insertions(+), 21 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 63936f8..400d80d 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -37,7 +37,7 @@
 }
 
 
-void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
+int r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 
 	// variable declarations
 	r2d_int v, p, np, onv, vstart, vcur, vnext, numunclipped; 
@@ -45,7 +45,7 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 	// direct access to vertex buffer
 	r2d_vertex* vertbuffer = poly->verts; 
 	r2d_int* nverts = &poly->nverts; 
-	if(*nverts <= 0) return;
+	if(*nverts <= 0) return 0;
 
 	// signed distances to the clipping plane
 	r2d_real sdists[R2D_MAX_VERTS];
@@ -73,7 +73,7 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 		if(smin >= 0.0) continue;
 		if(smax <= 0.0) {
 			*nverts = 0;
-			return;
+			return 1;
 		}
 
 		// check all edges and insert new vertices on the bisected edges 
@@ -82,6 +82,12 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 			for(np = 0; np < 2; ++np) {
 				vnext = vertbuffer[vcur].pnbrs[np];
 				if(!clipped[vnext]) continue;
+				if(*nverts == R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+					fprintf(stderr, "r2d_clip: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+					return 0;
+				}
 				vertbuffer[*nverts].pnbrs[1-np] = vcur;
 				vertbuffer[*nverts].pnbrs[np] = -1;
 				vertbuffer[vcur].pnbrs[np] = *nverts;
@@ -119,9 +125,11 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 			vertbuffer[v].pnbrs[1] = clipped[vertbuffer[v].pnbrs[1]];
 		}	
 	}
+
+	return 1;
 }
 
-void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg) {
+int r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg) {
 
 	// direct access to vertex buffer
 	r2d_int* nverts;
@@ -177,6 +185,12 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 			for(np = 0; np < 2; ++np) {
 				vnext = vertbuffer[vcur].pnbrs[np];
 				if(!side[vnext]) continue;
+				if(*nverts + 2 > R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+					fprintf(stderr, "r2d_split: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+					return 0;
+				}
 				wav(vertbuffer[vcur].pos, -sdists[vnext],
 					vertbuffer[vnext].pos, sdists[vcur],
 					newpos);
@@ -224,6 +238,8 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 			for(np = 0; np < 2; ++np)
 				outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
 	}
+
+	return 1;
 }
 
 void r2d_reduce(r2d_poly* poly, r2d_real* moments, r2d_int polyorder) {
@@ -499,7 +515,14 @@ void r2d_init_box(r2d_poly* poly, r2d_rvec2 rbounds[2]) {
 }
 
 
-void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
+int r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
+
+	if(numverts > R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+		fprintf(stderr, "r2d_init_poly: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+		return 0;
+	}
 
 	// direct access to vertex buffer
 	r2d_vertex* vertbuffer = poly->verts; 
@@ -513,6 +536,8 @@ void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 		vertbuffer[v].pnbrs[0] = (v+1)%(*nverts);
 		vertbuffer[v].pnbrs[1] = (*nverts+v-1)%(*nverts);
 	}
+
+	return 1;
 }
 
 
diff --git a/src/r2d.h b/src/r2d.h
index 5fc57d4..7ee9c15 100644
--- a/src/r2d.h
+++ b/src/r2d.h
@@ -111,8 +111,9 @@ typedef struct {
  * \param[in] nplanes 
  * The number of planes in the input array. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
+int r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
 
 /**
  * \brief Splits a list of polygons across a single plane.  
@@ -136,8 +137,9 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
  * The output array of fragments on the negitive side of the clip plane. Must be at least npolys
  * long. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg);
+int r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg);
 
 /**
  * \brief Integrate a polynomial density over a polygon using simplicial decomposition.
@@ -314,8 +316,9 @@ void r2d_init_box(r2d_poly* poly, r2d_rvec2* rbounds);
  * \param [in] numverts
  * Number of vertices in the input polygon. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts);
+int r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts);
 
 /**
  * \brief Get four faces (unit normals and distances to the origin)
diff --git a/src/v2d.c b/src/v2d.c
index 9d98ca5..c049b35 100644
--- a/src/v2d.c
+++ b/src/v2d.c
@@ -46,6 +46,7 @@
 #include <string.h>
 #include <math.h>
 #include <stdint.h>
+#include <stdio.h>
 
 #define wav(va, wa, vb, wb, vr) {			\
 	vr.x = (wa*va.x + wb*vb.x)/(wa + wb);	\
@@ -53,9 +54,9 @@
 }
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax);
+int r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax);
 
-void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder) {
+int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder) {
 
 	r2d_int i, m, spax, dmax, nstack, siz;
 	r2d_int nmom = R2D_NUM_MOMENTS(polyorder);
@@ -66,7 +67,7 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 	// return if any parameters are bad 
 	for(i = 0; i < 2; ++i) gridsz.ij[i] = ibox[1].ij[i]-ibox[0].ij[i];	
 	if(!poly || poly->nverts <= 0 || !dest_grid || 
-			gridsz.i <= 0 || gridsz.j <= 0) return;
+			gridsz.i <= 0 || gridsz.j <= 0) return 1;
 	
 	// explicit stack-based implementation
 	// stack size should never overflow in this implementation, 
@@ -113,7 +114,8 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		r2d_split_coord(&stack[nstack].poly, children, d.xy[spax]*(stack[nstack].ibox[0].ij[spax]+dmax/2), spax);
+		if(!r2d_split_coord(&stack[nstack].poly, children, d.xy[spax]*(stack[nstack].ibox[0].ij[spax]+dmax/2), spax))
+			return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(r2d_dvec2));
 		//stack[nstack].ibox[0].ij[spax] += dmax/2;
 		//stack[nstack+1].ibox[1].ij[spax] -= dmax-dmax/2; 
@@ -123,12 +125,14 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax) {
+int r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax) {
 
 	// direct access to vertex buffer
-	if(inpoly->nverts <= 0) return;
+	if(inpoly->nverts <= 0) return 1;
 	r2d_int* nverts = &inpoly->nverts;
 	r2d_vertex* vertbuffer = inpoly->verts; 
 	r2d_int v, np, onv, vcur, vnext, vstart, nright, cside;
@@ -151,12 +155,12 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 	if(nright == 0) {
 		*(outpolys[0]) = *inpoly;
 		outpolys[1]->nverts = 0;
-		return;
+		return 1;
 	}
 	if(nright == *nverts) {
 		*(outpolys[1]) = *inpoly;
 		outpolys[0]->nverts = 0;
-		return;
+		return 1;
 	}
 
 	// check all edges and insert new vertices on the bisected edges 
@@ -166,6 +170,12 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 		for(np = 0; np < 2; ++np) {
 			vnext = vertbuffer[vcur].pnbrs[np];
 			if(!side[vnext]) continue;
+			if(*nverts + 2 > R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+				fprintf(stderr, "r2d_split_coord: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+				return 0;
+			}
 			wav(vertbuffer[vcur].pos, -sdists[vnext],
 				vertbuffer[vnext].pos, sdists[vcur],
 				newpos);
@@ -212,6 +222,8 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 	for(v = 0; v < outpolys[1]->nverts; ++v) 
 		for(np = 0; np < 2; ++np)
 			outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
+
+	return 1;
 }
 
 void r2d_get_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_rvec2 d) {
@@ -233,7 +245,7 @@ void r2d_get_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_rvec2 d) {
 	}
 }
 
-void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d) {
+int r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d) {
 	r2d_int i, nboxclip;
 	r2d_plane boxfaces[4];
 	nboxclip = 0;
@@ -242,7 +254,7 @@ void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2
 		if(ibox[1].ij[i] <= clampbox[0].ij[i] || ibox[0].ij[i] >= clampbox[1].ij[i]) {
 			memset(ibox, 0, 2*sizeof(r2d_dvec2));
 			poly->nverts = 0;
-			return;
+			return 1;
 		}
 		if(ibox[0].ij[i] < clampbox[0].ij[i]) {
 			ibox[0].ij[i] = clampbox[0].ij[i];
@@ -257,5 +269,6 @@ void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2
 			nboxclip++;
 		}	
 	}
-	if(nboxclip) r2d_clip(poly, boxfaces, nboxclip);
+	if(nboxclip && poly->nverts > 0) return r2d_clip(poly, boxfaces, nboxclip);
+	return 1;
 }
diff --git a/src/v2d.h b/src/v2d.h
index 3eb036c..3a524c3 100644
--- a/src/v2d.h
+++ b/src/v2d.h
@@ -81,8 +81,9 @@ extern "C" {
  * Order of the polynomial density field to rasterize. 
  * 0 for constant (1 moment), 1 for linear (3 moments), 2 for quadratic (6 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder);
+int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polygon, given a grid cell spacing,
@@ -100,8 +101,9 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
  * \param [in] d 
  * The cell spacing of the grid. The origin of the grid is assumed to lie at the origin in space.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d);
+int r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d);
 
 /**
  * \brief Get the minimal box of grid indices for a polygon, given a grid cell spacing.
-- 
2.43.0


From 0edec389b2b8aeb01064ba67ff492359ac23d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 06/14] fix: N-D clip and voxelize overran a full vertex buffer

---
 src/rNd.c | 14 +++++++++++---
 src/rNd.h |  3 ++-
 src/vNd.c | 27 ++++++++++++++++-----------
 src/vNd.h |  6 ++++--
 4 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index bdc0bbc..7304b16 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -23,13 +23,13 @@
 #include <stdio.h>
 
 
-void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
+int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 
 	// direct access to vertex buffer
 	rNd_vertex* vertbuffer = poly->verts; 
 	rNd_int* nverts = &poly->nverts; 
 	rNd_int* nfaces = &poly->nfaces; 
-	if(*nverts <= 0) return;
+	if(*nverts <= 0) return 0;
 
 	// variable declarations
 	rNd_int i, v, p, np, np0, np1, onv, vcur, fcur, vprev, vnext, vstart, 
@@ -63,7 +63,7 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 		if(smin >= 0.0) continue;
 		if(smax <= 0.0) {
 			*nverts = 0;
-			return;
+			return 1;
 		}
 
 		// check all edges and insert new vertices on the bisected edges 
@@ -73,6 +73,12 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 			for(np = 0; np < RND_DIM; ++np) {
 				vnext = vertbuffer[vcur].pnbrs[np];
 				if(!clipped[vnext]) continue;
+				if(*nverts == RND_MAX_VERTS) {
+#if !defined(NDEBUG)
+					fprintf(stderr, "rNd_clip: Max vertex buffer size exceeded; Increase RND_MAX_VERTS");
+#endif
+					return 0;
+				}
 				vertbuffer[*nverts].pnbrs[0] = vcur;
 				vertbuffer[vcur].pnbrs[np] = *nverts;
 				for(i = 0; i < RND_DIM; ++i) // weighted average of vertex positions
@@ -168,6 +174,8 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 			for(np = 0; np < RND_DIM; ++np)
 				vertbuffer[v].pnbrs[np] = clipped[vertbuffer[v].pnbrs[np]];
 	}
+
+	return 1;
 }
 
 
diff --git a/src/rNd.h b/src/rNd.h
index 620839c..88be86b 100644
--- a/src/rNd.h
+++ b/src/rNd.h
@@ -110,8 +110,9 @@ typedef struct {
  * \param[in] nplanes 
  * The number of hyperplanes in the input array. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes);
+int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes);
 
 /**
  * \brief Integrate a polynomial density over a polytope. Still under development.
diff --git a/src/vNd.c b/src/vNd.c
index 39693f9..0ceb1c7 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -48,9 +48,9 @@
 #include <stdint.h>
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax);
+int rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax);
 
-void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder) {
+int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder) {
 
 	rNd_int i, j, m, ncell, spax, dmax, nstack, siz;
 	rNd_long gind;
@@ -59,10 +59,10 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
 
 	// return if any parameters are bad 
 	// calculate grid size 
-	if(!poly || poly->nverts <= 0 || !dest_grid) return;
+	if(!poly || poly->nverts <= 0 || !dest_grid) return 1;
 	for(i = 0; i < RND_DIM; ++i) {
 		gridsz.ijk[i] = ibox[1].ijk[i]-ibox[0].ijk[i];	
-		if(gridsz.ijk[i] <= 0) return; 
+		if(gridsz.ijk[i] <= 0) return 1; 
 	}
 
 	// get the number of grid cells
@@ -129,15 +129,18 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		rNd_split(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax);
+		if(!rNd_split(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax))
+			return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(rNd_dvec));
 		stack[nstack].ibox[1].ijk[spax] -= dmax-dmax/2; 
 		stack[nstack+1].ibox[0].ijk[spax] += dmax/2;
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax) {
+int rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax) {
 
 	// naive split for now
 	*outpolys[0] = *inpoly;
@@ -146,10 +149,11 @@ void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax
 	memset(&splane, 0, sizeof(splane));
 	splane.n.xyz[ax] = -1.0;
 	splane.d = coord;
-	rNd_clip(outpolys[0], &splane, 1);
+	if(!rNd_clip(outpolys[0], &splane, 1)) return 0;
 	splane.n.xyz[ax] *= -1; 
 	splane.d *= -1;
-	rNd_clip(outpolys[1], &splane, 1);
+	if(!rNd_clip(outpolys[1], &splane, 1)) return 0;
+	return 1;
 
 #if 0
 
@@ -264,7 +268,7 @@ void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 	}
 }
 
-void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
+int rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
 	rNd_int i, nboxclip;
 	rNd_plane boxfaces[2*RND_DIM];
 	nboxclip = 0;
@@ -273,7 +277,7 @@ void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_
 		if(ibox[1].ijk[i] <= clampbox[0].ijk[i] || ibox[0].ijk[i] >= clampbox[1].ijk[i]) {
 			memset(ibox, 0, 2*sizeof(rNd_dvec));
 			poly->nverts = 0;
-			return;
+			return 1;
 		}
 		if(ibox[0].ijk[i] < clampbox[0].ijk[i]) {
 			ibox[0].ijk[i] = clampbox[0].ijk[i];
@@ -288,5 +292,6 @@ void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_
 			nboxclip++;
 		}	
 	}
-	if(nboxclip) rNd_clip(poly, boxfaces, nboxclip);
+	if(nboxclip && poly->nverts > 0) return rNd_clip(poly, boxfaces, nboxclip);
+	return 1;
 }
diff --git a/src/vNd.h b/src/vNd.h
index 08022f3..1f8e3a0 100644
--- a/src/vNd.h
+++ b/src/vNd.h
@@ -81,8 +81,9 @@ extern "C" {
  * Order of the polynomial density field to voxelize. 
  * 0 for constant (1 moment), 1 for linear (4 moments), 2 for quadratic (10 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder);
+int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing,
@@ -100,8 +101,9 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
  * \param [in] d 
  * The cell spacing of the grid. The origin of the grid is assumed to lie at the origin in space.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d);
+int rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing.
-- 
2.43.0


From 75a00ecf02f36b2650034dca10bbeef12b9fc169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 07/14] fix: r2d_rotate wrote the rotated y coordinate into x

---
 src/r2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 400d80d..3ffa867 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -442,7 +442,7 @@ void r2d_rotate(r2d_poly* poly, r2d_real theta) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		poly->verts[v].pos.x = cosine*tmp.x - sine*tmp.y; 
-		poly->verts[v].pos.x = sine*tmp.x + cosine*tmp.y; 
+		poly->verts[v].pos.y = sine*tmp.x + cosine*tmp.y; 
 	}
 }
 
-- 
2.43.0


From 6a420ae70c5ded9afc879ad7d52241ead7f1eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 08/14] fix: r2d_split returned the halves on the wrong sides
 of the plane

---
 src/r2d.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 3ffa867..9597164 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -159,7 +159,6 @@ int r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_
 		memset(&side, 0, sizeof(side));
 		for(v = 0; v < *nverts; ++v) {
 			sdists[v] = plane.d + dot(vertbuffer[v].pos, plane.n);
-			sdists[v] *= -1;
 			if(sdists[v] < 0.0) {
 				side[v] = 1;
 				nright++;
-- 
2.43.0


From 9fb5e49cd81c1f7703ad3c7cfde43dd49497e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 09/14] fix: r2d_box_faces_from_verts mirrored the lower faces
 through the origin

---
 src/r2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 9597164..c445f53 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -541,8 +541,8 @@ int r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 
 
 void r2d_box_faces_from_verts(r2d_plane* faces, r2d_rvec2* rbounds) {
-	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = rbounds[0].y; 
-	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = rbounds[0].x; 
+	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = -rbounds[0].y; 
+	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = -rbounds[0].x; 
 	faces[2].n.x = 0.0; faces[2].n.y = -1.0; faces[2].d = rbounds[1].y; 
 	faces[3].n.x = -1.0; faces[3].n.y = 0.0; faces[3].d = rbounds[1].x; 
 }
-- 
2.43.0


From 4a7342e9aec749e95c5228d29ad5ac15e4419822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 10/14] fix: rNd_affine kept only the last matrix column and
 dropped mat[D][D] from w

---
 src/rNd.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index 7304b16..7f731ac 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -496,13 +496,13 @@ void rNd_affine(rNd_poly* poly, rNd_real mat[RND_DIM+1][RND_DIM+1]) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		// affine transformation
-		for(i = 0; i < RND_DIM; ++i)
-		for(j = 0; j < RND_DIM; ++j)
-			poly->verts[v].pos.xyz[i] = tmp.xyz[j]*mat[i][j];
-		for(i = 0; i < RND_DIM; ++i)
-			poly->verts[v].pos.xyz[i] += mat[i][RND_DIM];
+		for(i = 0; i < RND_DIM; ++i) {
+			poly->verts[v].pos.xyz[i] = mat[i][RND_DIM];
+			for(j = 0; j < RND_DIM; ++j)
+				poly->verts[v].pos.xyz[i] += tmp.xyz[j]*mat[i][j];
+		}
 		// homogeneous divide if w != 1, i.e. in a perspective projection
-		w = 0.0;
+		w = mat[RND_DIM][RND_DIM];
 		for(j = 0; j < RND_DIM; ++j)
 			w += tmp.xyz[j]*mat[RND_DIM][j];
 		for(i = 0; i < RND_DIM; ++i)
-- 
2.43.0


From 7138cb250f357ed23ddd0f2ca25458174e70bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:01 +0000
Subject: [PATCH 11/14] fix: deprecated r2d_clip_quad looped forever on a pixel
 lying wholly outside a face

When the faces before it had already clipped everything inside face f, the
traversal around the remaining polygon never met a vertex inside f and never
ended.
---
 deprecated/r2d.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index 704c11e..84f6ab5 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -499,6 +499,9 @@ void r2d_clip_quad(r2d_poly* poly, unsigned char andcmp) {
 			}
 			vertbuffer[vcur].orient.fflags |= CLIP_MASK;
 			vcur = vnext;
+
+			// back where we started: nothing is left inside this face
+			if(vcur == vstart) return;
 		}
 
 		// traverse to the left
-- 
2.43.0


From 235f550029289f31b17cf53a0248e97290761fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:13 +0000
Subject: [PATCH 12/14] fix: deprecated r3d_voxelize_tet with USE_TREE gave
 boundary voxels the wrong corners

Tree nodes number their corners around each z-face, the voxel box in row-major
order, so every cell crossing the boundary was clipped with shuffled distances.
---
 deprecated/r3d.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 4ffd6a1..581307b 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -82,6 +82,8 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 	r3d_treenode treestack[128];
 	r3d_int ntreestack;
 	r3d_treenode curnode;
+	// node corners go around each z-face; box vertices are in row-major order
+	static const unsigned char treecorner[8] = {0, 4, 3, 7, 1, 5, 2, 6};
 #else
 	r3d_long vv0;
 	r3d_long vv[8];
@@ -346,7 +348,7 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 			// initialize the unit cube connectivity 
 			r3du_init_box(&voxel, rbounds);
 			for(v = 0; v < voxel.nverts; ++v)
-				voxel.verts[v].orient = curnode.orient[v];
+				voxel.verts[v].orient = curnode.orient[treecorner[v]];
 
 			// clip and reduce
 			r3d_clip_tet(&voxel, andcmp);
-- 
2.43.0


From 7a024223ea4cd1fdc227298f1a40e7246a8a9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 13/14] fix: is_good accepted one-way edges and self-loops and
 indexed with negative neighbours

---
 src/r2d.c | 13 ++++++++++---
 src/r3d.c | 14 +++++++++++++-
 src/rNd.c | 13 ++++++++++++-
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index c445f53..55b0dad 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -405,7 +405,7 @@ r2d_rvec2 r2d_poly_center(r2d_poly* poly) {
 
 r2d_int r2d_is_good(r2d_poly* poly) {
 
-	r2d_int v;
+	r2d_int v, np, vn;
 	r2d_int vct[R2D_MAX_VERTS];
 
 	// direct access to vertex buffer
@@ -419,8 +419,9 @@ r2d_int r2d_is_good(r2d_poly* poly) {
 		// return false if vertices share an edge with themselves 
 		// or if any edges are obviously invalid
 		if(vertbuffer[v].pnbrs[0] == vertbuffer[v].pnbrs[1]) return 0;
-		if(vertbuffer[v].pnbrs[0] >= *nverts) return 0;
-		if(vertbuffer[v].pnbrs[1] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[0] == v || vertbuffer[v].pnbrs[1] == v) return 0;
+		if(vertbuffer[v].pnbrs[0] < 0 || vertbuffer[v].pnbrs[0] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[1] < 0 || vertbuffer[v].pnbrs[1] >= *nverts) return 0;
 
 		vct[vertbuffer[v].pnbrs[0]]++;
 		vct[vertbuffer[v].pnbrs[1]]++;
@@ -430,6 +431,12 @@ r2d_int r2d_is_good(r2d_poly* poly) {
 	// by more or fewer than two other vertices
 	for(v = 0; v < *nverts; ++v) if(vct[v] != 2) return 0;
 
+	// return false if any edge leads only one way
+	for(v = 0; v < *nverts; ++v) for(np = 0; np < 2; ++np) {
+		vn = vertbuffer[v].pnbrs[np];
+		if(vertbuffer[vn].pnbrs[0] != v && vertbuffer[vn].pnbrs[1] != v) return 0;
+	}
+
 	return 1;
 }
 
diff --git a/src/r3d.c b/src/r3d.c
index b40b928..2d749c3 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -496,7 +496,8 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 				printf("Double edge.\n");
 				return 0;
 			}
-			if (vertbuffer[v].pnbrs[np] >= *nverts) {
+			if (vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts ||
+					vertbuffer[v].pnbrs[np] == v) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
@@ -515,6 +516,17 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 			return 0;
 		}
 
+	// return false if any edge leads only one way
+	for (v = 0; v < *nverts; ++v)
+		for (np = 0; np < 3; ++np) {
+			vc = vertbuffer[v].pnbrs[np];
+			if (vertbuffer[vc].pnbrs[0] != v && vertbuffer[vc].pnbrs[1] != v &&
+					vertbuffer[vc].pnbrs[2] != v) {
+				printf("One-way edge.\n");
+				return 0;
+			}
+		}
+
 	// check for 3-vertex-connectedness this is O(nverts^2)
 
 	// handle multiply-connected polyhedra by testing each component separately.
diff --git a/src/rNd.c b/src/rNd.c
index 7f731ac..306df21 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -350,7 +350,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 				return 0;
 			}
 			// return if any edges are obviously invalid
-			if(vertbuffer[v].pnbrs[np] >= *nverts) {
+			if(vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
@@ -372,6 +372,17 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 		return 0;
 	}
 
+	// return false if any edge leads only one way
+	for(v = 0; v < *nverts; ++v) for(np = 0; np < RND_DIM; ++np) {
+		vc = vertbuffer[v].pnbrs[np];
+		for(npp = 0; npp < RND_DIM; ++npp)
+			if(vertbuffer[vc].pnbrs[npp] == v) break;
+		if(npp == RND_DIM) {
+			printf("One-way edge.\n");
+			return 0;
+		}
+	}
+
 	/////////////////////////////////////////////////////////
 	// check for k-vertex-connectedness (Balinski's theorem)
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From 428e42b09ca09413157fb71da20b2998d066abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:42 +0000
Subject: [PATCH 14/14] fix: r3d_poly_faces_from_verts returned outward normals

For the face order r3d_init_poly takes (and r3d_tet/box_faces_from_verts and
r2d_poly_faces_from_verts follow) the accumulated cross product points outwards,
so clipping against the returned planes removed the inside.
---
 src/r3d.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index 2d749c3..b927fee 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1013,15 +1013,15 @@ void r3d_poly_faces_from_verts(r3d_plane *faces, r3d_rvec3 *vertices,
 		faces[f].n.z = 0.0;
 
 		for (v = 0; v < numvertsperface[f]; ++v) {
-			// add cross product of edges to the total normal
+			// subtract cross product of edges, so that the normal points inwards
 			p0 = vertices[faceinds[f][v]];
 			p1 = vertices[faceinds[f][(v + 1) % numvertsperface[f]]];
 			p2 = vertices[faceinds[f][(v + 2) % numvertsperface[f]]];
-			faces[f].n.x +=
+			faces[f].n.x -=
 					(p1.y - p0.y) * (p2.z - p0.z) - (p1.z - p0.z) * (p2.y - p0.y);
-			faces[f].n.y +=
+			faces[f].n.y -=
 					(p1.z - p0.z) * (p2.x - p0.x) - (p1.x - p0.x) * (p2.z - p0.z);
-			faces[f].n.z +=
+			faces[f].n.z -=
 					(p1.x - p0.x) * (p2.y - p0.y) - (p1.y - p0.y) * (p2.x - p0.x);
 
 			// add the vertex position to the centroid
-- 
2.43.0

