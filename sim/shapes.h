// Test shapes built from a seed: boundary descriptions with their reference regions.
#pragma once
#include <cmath>
#include <vector>
#include "core.h"
#include "ref.h"

struct Shape3 {
  std::vector<std::array<double, 3>> v;
  std::vector<std::vector<int>> f;     // counter-clockwise seen from outside
  bool convex = true;
  int comps = 1;
  // number of vertices the library needs while building it
  int need() const {
    std::vector<int> e(v.size(), 0); int tot = 0, mx = 0;
    for (auto& q : f) for (int i : q) { ++e[i]; ++tot; }
    for (int c : e) mx = std::max(mx, c);
    return mx == 3 ? (int)v.size() : tot;
  }
};
static inline void shape_fix_orientation(Shape3& s) {
  // make the total volume positive
  ld vol = 0;
  for (auto& q : s.f) for (size_t i = 1; i + 1 < q.size(); ++i) {
    auto &a = s.v[q[0]], &b = s.v[q[i]], &c = s.v[q[i + 1]];
    vol += (ld)a[0] * ((ld)b[1] * c[2] - (ld)b[2] * c[1]) - (ld)a[1] * ((ld)b[0] * c[2] - (ld)b[2] * c[0]) + (ld)a[2] * ((ld)b[0] * c[1] - (ld)b[1] * c[0]);
  }
  if (vol < 0) for (auto& q : s.f) std::reverse(q.begin(), q.end());
}
// a shape is convex if no corner lies outside a face
static inline bool really_convex(const Shape3& s) {
  for (auto& q : s.f) {
    ld n[3] = {0, 0, 0}, l = 0; auto& a = s.v[(size_t)q[0]];
    for (size_t i = 1; i + 1 < q.size(); ++i) { auto &b = s.v[(size_t)q[i]], &c = s.v[(size_t)q[i + 1]]; for (int j = 0; j < 3; ++j) { int u = (j + 1) % 3, w = (j + 2) % 3; n[j] += (ld)(b[u] - a[u]) * (c[w] - a[w]) - (ld)(b[w] - a[w]) * (c[u] - a[u]); } }
    for (ld z : n) l += z * z;
    l = sqrtl(l); if (!(l > 0)) return false;
    for (auto& p : s.v) { ld e = 0; for (int j = 0; j < 3; ++j) e += n[j] / l * ((ld)p[j] - a[j]); if (e > 1e-12L) return false; }
  }
  return true;
}
static inline void prism(Shape3& s, const std::vector<std::array<double, 2>>& p, double z0, double z1) {
  int o = (int)s.v.size(), n = (int)p.size();
  for (auto& q : p) s.v.push_back({q[0], q[1], z0});
  for (auto& q : p) s.v.push_back({q[0], q[1], z1});
  std::vector<int> bot, top;
  for (int i = 0; i < n; ++i) { bot.push_back(o + n - 1 - i); top.push_back(o + n + i); }
  s.f.push_back(bot); s.f.push_back(top);
  for (int i = 0; i < n; ++i) { int j = (i + 1) % n; s.f.push_back({o + i, o + j, o + n + j, o + n + i}); }
}
static inline std::vector<std::array<double, 2>> ngon(Rng& r, int n, double rad, double ph) {
  std::vector<std::array<double, 2>> p; std::vector<double> a;
  for (int i = 0; i < n; ++i) a.push_back(6.283185307179586 * (i + 0.6 * (r.uni() - 0.5)) / n + ph);
  for (double t : a) p.push_back({rad * cos(t), rad * sin(t)});
  return p;
}
enum { SH_PRISM, SH_PYRAMID, SH_BIPYR, SH_ICOSA, SH_LPRISM, SH_COMB, SH_RING, SH_TWO, SH_MANY, SH_STARPRISM, SH_BARREL, SH_GLOBE, SH_ANTIPRISM, SH_NKINDS, SH_SPLITBOX = SH_NKINDS };   // the last only where asked for
static inline Shape3 unit_shape3(int kind, int n, u64 seed) {
  Rng r(mix64(seed)); Shape3 s;
  if (n < 3) n = 3;
  switch (kind == SH_SPLITBOX ? kind : kind % SH_NKINDS) {
    case SH_PRISM: prism(s, ngon(r, n, 0.7, r.uni(0, 6)), -0.5, r.uni(0.1, 0.6)); break;
    case SH_PYRAMID: {
      auto p = ngon(r, n, 0.8, r.uni(0, 6)); std::vector<int> b;
      for (auto& q : p) s.v.push_back({q[0], q[1], -0.4});
      s.v.push_back({r.uni(-0.2, 0.2), r.uni(-0.2, 0.2), 0.8});
      for (int i = 0; i < n; ++i) { b.push_back(n - 1 - i); s.f.push_back({i, (i + 1) % n, n}); }
      s.f.push_back(b); break; }
    case SH_BIPYR: {
      auto p = ngon(r, n, 0.8, r.uni(0, 6));
      for (auto& q : p) s.v.push_back({q[0], q[1], 0});
      s.v.push_back({r.uni(-0.1, 0.1), r.uni(-0.1, 0.1), 0.9}); s.v.push_back({r.uni(-0.1, 0.1), r.uni(-0.1, 0.1), -0.8});
      for (int i = 0; i < n; ++i) { int j = (i + 1) % n; s.f.push_back({i, j, n}); s.f.push_back({j, i, n + 1}); }
      break; }
    case SH_ICOSA: {
      double g = 1.6180339887498949; double c[12][3] = {{-1, g, 0}, {1, g, 0}, {-1, -g, 0}, {1, -g, 0}, {0, -1, g}, {0, 1, g}, {0, -1, -g}, {0, 1, -g}, {g, 0, -1}, {g, 0, 1}, {-g, 0, -1}, {-g, 0, 1}};
      int t[20][3] = {{0, 11, 5}, {0, 5, 1}, {0, 1, 7}, {0, 7, 10}, {0, 10, 11}, {1, 5, 9}, {5, 11, 4}, {11, 10, 2}, {10, 7, 6}, {7, 1, 8}, {3, 9, 4}, {3, 4, 2}, {3, 2, 6}, {3, 6, 8}, {3, 8, 9}, {4, 9, 5}, {2, 4, 11}, {6, 2, 10}, {8, 6, 7}, {9, 8, 1}};
      for (auto& q : c) s.v.push_back({0.5 * q[0] + r.uni(-0.04, 0.04), 0.5 * q[1] + r.uni(-0.04, 0.04), 0.5 * q[2] + r.uni(-0.04, 0.04)});
      for (auto& q : t) s.f.push_back({q[0], q[1], q[2]});
      break; }
    case SH_LPRISM: { double a = r.uni(0.2, 0.6), b = r.uni(0.2, 0.6);
      prism(s, {{-0.7, -0.7}, {0.8, -0.7}, {0.8, -0.7 + a}, {-0.7 + b, -0.7 + a}, {-0.7 + b, 0.8}, {-0.7, 0.8}}, -0.5, 0.6); s.convex = false; break; }
    case SH_COMB: { std::vector<std::array<double, 2>> p; int teeth = 2 + (n % 4);
      p.push_back({-0.8, -0.6}); p.push_back({0.8, -0.6});
      for (int i = teeth - 1; i >= 0; --i) { double x0 = -0.8 + 1.6 * i / teeth, w = 1.6 / teeth; double h = r.uni(0.3, 0.7), lo = r.uni(-0.4, 0.1);
        p.push_back({x0 + w * (i == teeth - 1 ? 1.0 : 0.8), h}); p.push_back({x0 + w * 0.35, h}); if (i) { p.push_back({x0 + w * 0.3, lo}); p.push_back({x0 - w * 0.15, lo}); } }
      p.pop_back(); p.push_back({-0.8, 0.5});
      // simple guard against a repeated point
      prism(s, p, -0.4, 0.5); s.convex = false; break; }
    case SH_RING: { // square ring, genus 1: four blocks sharing edges, described by quads only
      double a = r.uni(0.2, 0.5), h = r.uni(0.2, 0.6);
      double o = 0.9; double xy[8][2] = {{-o, -o}, {o, -o}, {o, o}, {-o, o}, {-a, -a}, {a, -a}, {a, a}, {-a, a}};
      for (int z = 0; z < 2; ++z) for (auto& q : xy) s.v.push_back({q[0] + 0.03 * r.uni(-1, 1) * 0, q[1], z ? h : -h});
      for (int i = 0; i < 4; ++i) { int j = (i + 1) % 4;
        s.f.push_back({i, j, 8 + j, 8 + i});                 // outer wall
        s.f.push_back({4 + j, 4 + i, 12 + i, 12 + j});       // inner wall
        s.f.push_back({8 + i, 8 + j, 12 + j, 12 + i});       // top
        s.f.push_back({j, i, 4 + i, 4 + j}); }               // bottom
      s.convex = false; break; }
    case SH_TWO: prism(s, ngon(r, 3 + n % 3, 0.35, r.uni(0, 6)), -0.5, 0.4);
      for (auto& q : s.v) q[0] -= 0.5;
      { Shape3 t; prism(t, ngon(r, 3 + (n / 3) % 3, 0.35, r.uni(0, 6)), -0.3, 0.6); int o = (int)s.v.size();
        for (auto& q : t.v) s.v.push_back({q[0] + 0.5, q[1], q[2]}); for (auto& q : t.f) { auto c = q; for (int& i : c) i += o; s.f.push_back(c); } }
      s.convex = false; s.comps = 2; break;
    case SH_MANY: { int k = n > 20 ? std::min(n / 3, 24) : 2 + n % 5; s.comps = k; s.convex = k == 1;
      for (int c = 0; c < k; ++c) { Shape3 t; prism(t, ngon(r, 3 + (int)r.below(2), 0.6 / k, r.uni(0, 6)), r.uni(-0.6, -0.2), r.uni(0.1, 0.6)); int o = (int)s.v.size();
        for (auto& q : t.v) s.v.push_back({q[0] + 1.8 * (c + 0.5) / k - 0.9, q[1], q[2]}); for (auto& q : t.f) { auto d = q; for (int& i : d) i += o; s.f.push_back(d); } }
      break; }
    case SH_BARREL: {  // rings of scaled polygons: vertices of three and four edges side by side
      int m = 3 + n % 7, k = std::max(3, std::min(n / m, 12)); auto p = ngon(r, m, 0.8, r.uni(0, 6));
      for (int l = 0; l < k; ++l) { double t = -0.75 + 1.5 * l / (k - 1), f = std::sqrt(1 - t * t); for (auto& q : p) s.v.push_back({q[0] * f, q[1] * f, 0.7 * t}); }
      std::vector<int> bot, top; for (int i = 0; i < m; ++i) { bot.push_back(m - 1 - i); top.push_back((k - 1) * m + i); }
      s.f.push_back(bot); s.f.push_back(top);
      for (int l = 0; l + 1 < k; ++l) for (int i = 0; i < m; ++i) { int j = (i + 1) % m; s.f.push_back({l * m + i, l * m + j, (l + 1) * m + j, (l + 1) * m + i}); }
      break; }
    case SH_GLOBE: {   // meridians and parallels: quads, triangles round two poles of many edges
      int m = 3 + n % 9, k = std::max(1, std::min(n / m, 10)); auto p = ngon(r, m, 0.8, r.uni(0, 6));
      for (int l = 0; l < k; ++l) { double t = -1 + 2.0 * (l + 1) / (k + 1), f = std::sqrt(1 - t * t); for (auto& q : p) s.v.push_back({q[0] * f, q[1] * f, 0.8 * t}); }
      int a = k * m, b = a + 1; s.v.push_back({0, 0, -0.8}); s.v.push_back({0, 0, 0.8});
      for (int i = 0; i < m; ++i) { int j = (i + 1) % m; s.f.push_back({j, i, a}); s.f.push_back({(k - 1) * m + i, (k - 1) * m + j, b}); for (int l = 0; l + 1 < k; ++l) s.f.push_back({l * m + i, l * m + j, (l + 1) * m + j, (l + 1) * m + i}); }
      break; }
    case SH_SPLITBOX: {   // a box with a face divided in two: corners of three edges two of which are in line
      double x = r.uni(0.3, 0.9), y = r.uni(0.3, 0.9), z = r.uni(0.3, 0.9), a = x * r.uni(-0.8, 0.8), b = x * r.uni(-0.8, 0.8);
      for (int c = 0; c < 8; ++c) s.v.push_back({c & 1 ? x : -x, c & 2 ? y : -y, c & 4 ? z : -z});
      s.v.push_back({a, -y, z}); s.v.push_back({b, y, z});
      s.f = {{0, 2, 3, 1}, {4, 8, 9, 6}, {8, 5, 7, 9}, {0, 1, 5, 8, 4}, {1, 3, 7, 5}, {3, 2, 6, 9, 7}, {2, 0, 4, 6}};
      for (auto& q : s.f) std::rotate(q.begin(), q.begin() + (long)r.below(q.size()), q.end());
      break; }
    case SH_ANTIPRISM: {
      int m = 3 + n % 20; double h = r.uni(0.3, 0.7), ph = r.uni(0, 6); std::vector<int> bot, top;
      for (int l = 0; l < 2; ++l) for (int i = 0; i < m; ++i) { double t = 6.283185307179586 * (i + 0.5 * l) / m + ph; s.v.push_back({0.8 * cos(t), 0.8 * sin(t), l ? h : -h}); }
      for (int i = 0; i < m; ++i) { int j = (i + 1) % m; bot.push_back(m - 1 - i); top.push_back(m + i); s.f.push_back({i, j, m + i}); s.f.push_back({m + i, j, m + j}); }
      s.f.push_back(bot); s.f.push_back(top); break; }
    default: { auto p = ngon(r, 2 * n, 0.8, r.uni(0, 6)); for (size_t i = 0; i < p.size(); i += 2) { p[i][0] *= 0.45; p[i][1] *= 0.45; } prism(s, p, -0.5, 0.5); s.convex = false; }
  }
  // generic position: a fixed random rotation and a shift, faces stay planar up to rounding
  if (r.chance(0.7)) {
    double ax = r.uni(0, 6), ay = r.uni(0, 6), sx = r.uni(-0.2, 0.2), sy = r.uni(-0.2, 0.2), sz = r.uni(-0.2, 0.2);
    for (auto& q : s.v) { double y = q[1] * cos(ax) - q[2] * sin(ax), z = q[1] * sin(ax) + q[2] * cos(ax); double x = q[0] * cos(ay) - y * sin(ay); y = q[0] * sin(ay) + y * cos(ay); q = {x + sx, y + sy, z + sz}; }
  }
  shape_fix_orientation(s);
  if (s.convex && !really_convex(s)) s.convex = false;
  return s;
}
static inline Shape3 make_shape3(int kind, int n, u64 seed) { Shape3 s = unit_shape3(kind, n, seed); if (REFUNIT != 1) for (auto& q : s.v) for (double& z : q) z *= (double)REFUNIT; return s; }
static inline void shape_ref(const Shape3& s, Ref<3>& ref) {
  ref.clear();
  ld c[3] = {0, 0, 0}; for (auto& q : s.v) for (int j = 0; j < 3; ++j) c[j] += (ld)q[j] / s.v.size();
  for (auto& q : s.f) for (size_t i = 1; i + 1 < q.size(); ++i) {
    Ref<3>::Sx x; for (int j = 0; j < 3; ++j) { x.v[0][j] = c[j]; x.v[1][j] = s.v[q[0]][j]; x.v[2][j] = s.v[q[i]][j]; x.v[3][j] = s.v[q[i + 1]][j]; }
    x.sign = 1; ref.add(x);
  }
}
// polygons: 0 convex, 1 star, 2 comb
static inline std::vector<std::array<double, 2>> make_shape2(int kind, int n, u64 seed, bool& convex) {
  Rng r(mix64(seed)); if (n < 3) n = 3;
  auto p = ngon(r, n, 0.9, r.uni(0, 6)); convex = true;
  if (kind % 3 == 1) { convex = false; for (size_t i = 0; i < p.size(); i += 2) { double f = r.uni(0.3, 0.8); p[i][0] *= f; p[i][1] *= f; } }
  if (kind % 3 == 2) {
    convex = false; p.clear(); int teeth = std::max(2, n / 4);
    p.push_back({-0.9, -0.8}); p.push_back({0.9, -0.8});
    for (int i = teeth - 1; i >= 0; --i) { double x0 = -0.9 + 1.8 * i / teeth, w = 1.8 / teeth;
      p.push_back({x0 + w * (i == teeth - 1 ? 1.0 : 0.9), r.uni(0.3, 0.9)}); p.push_back({x0 + w * (i ? 0.5 : 0.0), r.uni(0.3, 0.9)}); if (i) { p.push_back({x0 + w * 0.4, r.uni(-0.6, 0.0)}); p.push_back({x0 + w * 0.05, r.uni(-0.6, 0.0)}); } }
  }
  double sx = r.uni(-0.2, 0.2), sy = r.uni(-0.2, 0.2); for (auto& q : p) { q[0] += sx; q[1] += sy; q[0] *= (double)REFUNIT; q[1] *= (double)REFUNIT; }
  return p;
}
static inline void poly2_ref(const std::vector<std::array<double, 2>>& p, Ref<2>& ref) {
  ref.clear(); ld c[2] = {0, 0}; for (auto& q : p) for (int j = 0; j < 2; ++j) c[j] += (ld)q[j] / p.size();
  for (size_t i = 0; i < p.size(); ++i) { Ref<2>::Sx x; auto& b = p[(i + 1) % p.size()]; for (int j = 0; j < 2; ++j) { x.v[0][j] = c[j]; x.v[1][j] = p[i][j]; x.v[2][j] = b[j]; } x.sign = 1; ref.add(x); }
}
