// Dimension traits over the public API.  Only documented functions are used.
#pragma once
#include <type_traits>
#include "r2d.h"
#include "r3d.h"
#include "rNd.h"
#include "v2d.h"
#include "v3d.h"
#include "vNd.h"
#include "core.h"
#include "ref.h"

// functions return a status or nothing
template <class F> static inline int status(F f) {
  if constexpr (std::is_void<decltype(f())>::value) { f(); return 1; } else return (int)f();
}

struct D2 {
  static const int N = 2, NB = 2, CAP = R2D_MAX_VERTS;
  static const bool HASSPLIT = true;
  static const int MAXORD = 5;
  typedef r2d_poly Poly; typedef r2d_plane Plane; typedef r2d_rvec2 RV; typedef r2d_dvec2 DV;
  static double* xyz(RV& v) { return v.xy; }
  static int* ijk(DV& v) { return v.ij; }
  static int clip(Poly* p, Plane* pl, int n) { return status([&] { return r2d_clip(p, pl, n); }); }
  static int split(Poly* in, int n, Plane pl, Poly* a, Poly* b) { return status([&] { return r2d_split(in, n, pl, a, b); }); }
  static void reduce(Poly* p, double* m, int o) { r2d_reduce(p, m, o); }
  static int good(Poly* p) { return r2d_is_good(p); }
  static void print(Poly* p) { r2d_print(p); }
  static void translate(Poly* p, RV v) { r2d_translate(p, v); }
  static void rotate(Poly* p, double t, int, int) { r2d_rotate(p, t); }
  static void scale(Poly* p, RV v) { r2d_scale(p, v.x); }
  static void shear(Poly* p, double s, int a, int b) { r2d_shear(p, s, a, b); }
  static void affine(Poly* p, double* m) { r2d_affine(p, (double(*)[3])m); }
  static void box(Poly* p, RV* b) { r2d_init_box(p, b); }
  static int simplex(Poly* p, RV* v) { return status([&] { return r2d_init_poly(p, v, 3); }); }
  static void ibox(Poly* p, DV* b, RV d) { r2d_get_ibox(p, b, d); }
  static int clamp(Poly* p, DV* b, DV* c, RV d) { return status([&] { return r2d_clamp_ibox(p, b, c, d); }); }
  static int vox(Poly* p, DV* b, double* g, RV d, int o) { return status([&] { return r2d_rasterize(p, b, g, d, o); }); }
  static int nmom(int o) { return R2D_NUM_MOMENTS(o); }
  static void rotaxes(int, int, int& a, int& b) { a = 0; b = 1; }
};
struct D3 {
  static const int N = 3, NB = 3, CAP = R3D_MAX_VERTS;
  static const bool HASSPLIT = true;
  static const int MAXORD = 4;
  typedef r3d_poly Poly; typedef r3d_plane Plane; typedef r3d_rvec3 RV; typedef r3d_dvec3 DV;
  static double* xyz(RV& v) { return v.xyz; }
  static int* ijk(DV& v) { return v.ijk; }
  static int clip(Poly* p, Plane* pl, int n) { return status([&] { return r3d_clip(p, pl, n); }); }
  static int split(Poly* in, int n, Plane pl, Poly* a, Poly* b) { return status([&] { return r3d_split(in, n, pl, a, b); }); }
  static void reduce(Poly* p, double* m, int o) { r3d_reduce(p, m, o); }
  static int good(Poly* p) { return r3d_is_good(p); }
  static void print(Poly* p) { r3d_print(p); }
  static void translate(Poly* p, RV v) { r3d_translate(p, v); }
  static void rotate(Poly* p, double t, int a, int) { r3d_rotate(p, t, a); }
  static void scale(Poly* p, RV v) { r3d_scale(p, v.x); }
  static void shear(Poly* p, double s, int a, int b) { r3d_shear(p, s, a, b); }
  static void affine(Poly* p, double* m) { r3d_affine(p, (double(*)[4])m); }
  static void box(Poly* p, RV* b) { r3d_init_box(p, b); }
  static int simplex(Poly* p, RV* v) { return status([&] { return r3d_init_tet(p, v); }); }
  static void ibox(Poly* p, DV* b, RV d) { r3d_get_ibox(p, b, d); }
  static int clamp(Poly* p, DV* b, DV* c, RV d) { return status([&] { return r3d_clamp_ibox(p, b, c, d); }); }
  static int vox(Poly* p, DV* b, double* g, RV d, int o) { return status([&] { return r3d_voxelize(p, b, g, d, o); }); }
  static int nmom(int o) { return R3D_NUM_MOMENTS(o); }
  static void rotaxes(int ax, int, int& a, int& b) { a = (ax + 1) % 3; b = (ax + 2) % 3; }
};
struct D4 {
  static const int N = RND_DIM, NB = RND_DIM, CAP = RND_MAX_VERTS;
  static const bool HASSPLIT = false;
  static const int MAXORD = 0;
  typedef rNd_poly Poly; typedef rNd_plane Plane; typedef rNd_rvec RV; typedef rNd_dvec DV;
  static double* xyz(RV& v) { return v.xyz; }
  static int* ijk(DV& v) { return v.ijk; }
  static int clip(Poly* p, Plane* pl, int n) { return status([&] { return rNd_clip(p, pl, n); }); }
  static int split(Poly*, int, Plane, Poly*, Poly*) { return 0; }
  static void reduce(Poly* p, double* m, int o) { rNd_reduce(p, m, o); }
  static int good(Poly* p) { return rNd_is_good(p); }
  static void print(Poly* p) { rNd_print(p); }
  static void translate(Poly* p, RV v) { rNd_translate(p, v); }
  static void rotate(Poly* p, double t, int a, int b) { rNd_rotate(p, t, a, b); }
  static void scale(Poly* p, RV v) { rNd_scale(p, v); }
  static void shear(Poly* p, double s, int a, int b) { rNd_shear(p, s, a, b); }
  static void affine(Poly* p, double* m) { rNd_affine(p, (double(*)[RND_DIM + 1])m); }
  static void box(Poly* p, RV* b) { rNd_init_box(p, b); }
  static int simplex(Poly* p, RV* v) { return status([&] { return rNd_init_simplex(p, v); }); }
  static void ibox(Poly* p, DV* b, RV d) { rNd_get_ibox(p, b, d); }
  static int clamp(Poly* p, DV* b, DV* c, RV d) { return status([&] { return rNd_clamp_ibox(p, b, c, d); }); }
  static int vox(Poly* p, DV* b, double* g, RV d, int o) { return status([&] { return rNd_voxelize(p, b, g, d, o); }); }
  static int nmom(int) { return 1; }
  static void rotaxes(int x, int y, int& a, int& b) { a = x; b = y; }
};
