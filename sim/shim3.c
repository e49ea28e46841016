/* Adapter for the deprecated 3D voxelizer (its types clash with the current library's). */
#include "r3d.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define NM(x) CAT(PREFIX, x)
unsigned long NM(orient_size3)(void) { return sizeof(r3d_orientation); }
void NM(tetfaces)(const double* v, double* out) {
  r3du_tet_faces_from_verts((r3d_rvec3*)v, (r3d_plane*)out);
}
void NM(vox)(const double* planes, double** moments, int order, void* orient, long bufsz, const int* n, const double* d) {
  r3d_dest_grid g; int m;
  for (m = 0; m < r3d_num_moments[order]; ++m) g.moments[m] = moments[m];
  g.polyorder = order; g.orient = (r3d_orientation*)orient; g.bufsz = bufsz;
  g.n.i = n[0]; g.n.j = n[1]; g.n.k = n[2]; g.d.x = d[0]; g.d.y = d[1]; g.d.z = d[2];
  r3d_voxelize_tet((r3d_plane*)planes, &g);
}
