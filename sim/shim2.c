/* Adapter for the deprecated 2D rasterizer (its types clash with the current library's). */
#include "r2d.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define NM(x) CAT(PREFIX, x)
unsigned long NM(orient_size2)(void) { return sizeof(r2d_orientation); }
void NM(quadfaces)(const double* v, int n, double* out) {
  r2du_faces_from_verts((r2d_rvec2*)v, n, (r2d_plane*)out);
}
void NM(ras)(const double* planes, double** moments, int order, void* orient, long bufsz, const int* n, const double* d) {
  r2d_dest_grid g; int m;
  for (m = 0; m < r2d_num_moments[order]; ++m) g.moments[m] = moments[m];
  g.polyorder = order; g.orient = (r2d_orientation*)orient; g.bufsz = bufsz;
  g.n.i = n[0]; g.n.j = n[1]; g.d.x = d[0]; g.d.y = d[1];
  r2d_rasterize_quad((r2d_plane*)planes, &g);
}
