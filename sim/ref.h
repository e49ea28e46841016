// Reference model: a region is a list of signed simplices.  Clipping bisects edges until every simplex
// lies on one side; measuring sums simplex integrals.  Nothing here shares an idea with the library's
// vertex-graph algorithms, and everything works for any dimension.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <vector>
typedef long double ld;
inline ld REFUNIT = 1;   // length unit of the plan: every coordinate is this times a number of ordinary size

template <int N> struct RefPlane { ld n[N]; ld d; };

template <int N> struct Ref {
  struct Sx { ld v[N + 1][N]; int sign; };
  std::vector<Sx> s;
  ld R = 0;            // largest coordinate the library may still hold (flat leftovers included)
  std::vector<std::array<ld, N>> hull;   // corners of a box around everything added, carried through the maps
  ld E = 0;            // bound on the absolute position error the library may have accumulated so far
  static constexpr ld EPS = 2.3e-16L;
  bool overflow = false;
  static const size_t LIMIT = 6000;

  void clear() { s.clear(); hull.clear(); R = E = 0; overflow = false; }
  static ld det(ld m[N][N]) {
    ld a[N][N]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a[i][j] = m[i][j];
    ld r = 1;
    for (int c = 0; c < N; ++c) {
      int p = c; for (int i = c + 1; i < N; ++i) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i;
      if (a[p][c] == 0) return 0;
      if (p != c) { for (int j = 0; j < N; ++j) std::swap(a[p][j], a[c][j]); r = -r; }
      r *= a[c][c];
      for (int i = c + 1; i < N; ++i) { ld f = a[i][c] / a[c][c]; for (int j = c; j < N; ++j) a[i][j] -= f * a[c][j]; }
    }
    return r;
  }
  static ld signedvol(const Sx& x) {   // v0 as apex: det of (v1-v0, ..., vN-v0) / N!
    ld m[N][N]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m[i][j] = x.v[i + 1][j] - x.v[0][j];
    ld f = 1; for (int i = 2; i <= N; ++i) f *= i;
    return det(m) / f;
  }
  void grow(const ld* p) { for (int j = 0; j < N; ++j) if (fabsl(p[j]) > R) R = fabsl(p[j]); }
  bool boxed = false; ld lo_[N], hi_[N];
  void widen(const ld* p) { for (int j = 0; j < N; ++j) { lo_[j] = boxed ? std::min(lo_[j], p[j]) : p[j]; hi_[j] = boxed ? std::max(hi_[j], p[j]) : p[j]; } boxed = true; }
  // adds a simplex counted with the orientation of its vertex order
  void add(const Sx& x0) {
    Sx x = x0; ld v = signedvol(x);
    for (int i = 0; i <= N; ++i) { grow(x.v[i]); widen(x.v[i]); }
    if (v == 0) return;
    E = std::max(E, EPS * R);
    x.sign = v > 0 ? 1 : -1; s.push_back(x);
  }
  // closed oriented polytope boundary from (N-1)-simplices
  static ld sd(const ld* p, const RefPlane<N>& pl) { ld r = pl.d; for (int j = 0; j < N; ++j) r += pl.n[j] * p[j]; return r; }
  static void cut(const Sx& x, ld* dist, const RefPlane<N>& pl, std::vector<Sx>& pos, std::vector<Sx>* neg) {
    int ip = -1, in = -1;
    for (int i = 0; i <= N; ++i) { if (dist[i] > 0 && (ip < 0 || dist[i] > dist[ip])) ip = i; if (dist[i] < 0 && (in < 0 || dist[i] < dist[in])) in = i; }
    if (in < 0) { pos.push_back(x); return; }
    if (ip < 0) { if (neg) neg->push_back(x); return; }
    ld t = dist[ip] / (dist[ip] - dist[in]);
    ld e[N]; for (int j = 0; j < N; ++j) e[j] = x.v[ip][j] + t * (x.v[in][j] - x.v[ip][j]);
    Sx a = x, b = x; ld da[N + 1], db[N + 1];
    for (int i = 0; i <= N; ++i) da[i] = db[i] = dist[i];
    for (int j = 0; j < N; ++j) { a.v[in][j] = e[j]; b.v[ip][j] = e[j]; }
    da[in] = 0; db[ip] = 0;
    cut(a, da, pl, pos, neg); cut(b, db, pl, pos, neg);
  }
  void split(const RefPlane<N>& pl, Ref& pos, Ref& neg) const {
    Ref a, b; a.R = b.R = R; a.hull = b.hull = hull; a.boxed = b.boxed = boxed; for (int j = 0; boxed && j < N; ++j) { a.lo_[j] = b.lo_[j] = lo_[j]; a.hi_[j] = b.hi_[j] = hi_[j]; } a.E = b.E = E + 4 * EPS * (R + fabsl(pl.d)); a.overflow = b.overflow = overflow;
    for (auto& x : s) { ld d[N + 1]; for (int i = 0; i <= N; ++i) d[i] = sd(x.v[i], pl); cut(x, d, pl, a.s, &b.s); if (a.s.size() + b.s.size() > 2 * LIMIT) { a.overflow = b.overflow = true; break; } }
    pos = std::move(a); neg = std::move(b);
  }
  void clip(const RefPlane<N>& pl) {
    std::vector<Sx> out;
    for (auto& x : s) { ld d[N + 1]; for (int i = 0; i <= N; ++i) d[i] = sd(x.v[i], pl); cut(x, d, pl, out, nullptr); if (out.size() > LIMIT) { overflow = true; break; } }
    s.swap(out);
    E += 4 * EPS * (R + fabsl(pl.d));
  }
  void affine(const ld m[N][N], const ld t[N]) {
    ld nrm = 0, tm = 0;
    for (int i = 0; i < N; ++i) { ld r = 0; for (int j = 0; j < N; ++j) r += fabsl(m[i][j]); nrm = std::max(nrm, r); tm = std::max(tm, fabsl(t[i])); }
    ld mm[N][N]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) mm[i][j] = m[i][j];
    int sg = det(mm) < 0 ? -1 : 1;
    for (auto& x : s) {
      for (int i = 0; i <= N; ++i) { ld p[N]; for (int a = 0; a < N; ++a) { p[a] = t[a]; for (int b = 0; b < N; ++b) p[a] += m[a][b] * x.v[i][b]; } for (int a = 0; a < N; ++a) x.v[i][a] = p[a]; }
      x.sign *= sg;
    }
    ld R0 = R; R = 0;
    if (hull.empty() && boxed) for (int c = 0; c < (1 << N); ++c) { std::array<ld, N> q; for (int j = 0; j < N; ++j) q[j] = c >> j & 1 ? hi_[j] : lo_[j]; hull.push_back(q); }
    for (auto& q : hull) { std::array<ld, N> p; for (int a = 0; a < N; ++a) { p[a] = t[a]; for (int b = 0; b < N; ++b) p[a] += m[a][b] * q[b]; } q = p; grow(q.data()); }
    for (auto& x : s) for (int i = 0; i <= N; ++i) grow(x.v[i]);
    E = nrm * E + 8 * EPS * (nrm * R0 + tm + R);
  }
  // perspective: homogeneous (N+1)x(N+1) matrix; false if a point comes too near the horizon
  bool projective(const double* M) {
    ld mm[N + 1][N + 1]; for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) mm[i][j] = M[i * (N + 1) + j];
    ld wmin = 1e300L, wmax = 0; auto wof = [&](const ld* p) { ld w = mm[N][N]; for (int j = 0; j < N; ++j) w += mm[N][j] * p[j]; wmin = std::min(wmin, w); wmax = std::max(wmax, w); return w; };
    if (hull.empty() && boxed) for (int c = 0; c < (1 << N); ++c) { std::array<ld, N> q; for (int j = 0; j < N; ++j) q[j] = c >> j & 1 ? hi_[j] : lo_[j]; hull.push_back(q); }
    for (auto& q : hull) wof(q.data());
    for (auto& x : s) for (int i = 0; i <= N; ++i) wof(x.v[i]);
    if (!(wmin > 0.3L && wmax < 4)) return wmax == 0;
    int sg = Ref<N + 1>::det(mm) < 0 ? -1 : 1;
    auto put = [&](ld* p) { ld w = mm[N][N], q[N]; for (int j = 0; j < N; ++j) w += mm[N][j] * p[j]; for (int a = 0; a < N; ++a) { q[a] = mm[a][N]; for (int b = 0; b < N; ++b) q[a] += mm[a][b] * p[b]; } for (int a = 0; a < N; ++a) p[a] = q[a] / w; };
    ld R0 = R; R = 0; for (auto& q : hull) { put(q.data()); grow(q.data()); }
    for (auto& x : s) { for (int i = 0; i <= N; ++i) { put(x.v[i]); grow(x.v[i]); } x.sign *= sg; }
    ld nrm = 0, tm = 0, bn = 0; for (int j = 0; j < N; ++j) bn += fabsl(mm[N][j]);
    for (int i = 0; i < N; ++i) { ld r = 0; for (int j = 0; j < N; ++j) r += fabsl(mm[i][j]); nrm = std::max(nrm, r); tm = std::max(tm, fabsl(mm[i][N])); }
    ld lip = (nrm + bn * R) / wmin; E = lip * E + 8 * EPS * ((nrm * R0 + tm) / wmin + R * (1 + (bn * R0 + fabsl(mm[N][N])) / wmin));
    return true;
  }
  static int nmom(int order) { long num = 1; for (int i = 1; i <= N; ++i) num = num * (order + i) / i; return (int)num; }
  // moments in the library's row-major order up to `order`
  void moments(int order, std::vector<ld>& out) const {
    out.assign(nmom(order), 0);
    for (auto& x : s) {
      ld V = fabsl(signedvol(x)) * x.sign;
      if (order == 0) { out[0] += V; continue; }
      if (order <= 2) {
        ld S[N]; for (int a = 0; a < N; ++a) { S[a] = 0; for (int i = 0; i <= N; ++i) S[a] += x.v[i][a]; }
        out[0] += V;
        for (int a = 0; a < N; ++a) out[1 + a] += V * S[a] / (N + 1);
        if (order == 2) { int k = 1 + N; for (int a = 0; a < N; ++a) for (int b = a; b < N; ++b, ++k) { ld q = S[a] * S[b]; for (int i = 0; i <= N; ++i) q += x.v[i][a] * x.v[i][b]; out[k] += V * q / ((N + 1) * (N + 2)); } }
        continue;
      }
      quad(x, V, order, out);
    }
  }
  static void gauss(int n, ld* xs, ld* ws) {
    for (int i = 0; i < n; ++i) {
      ld z = cosl(3.14159265358979323846264L * (i + 0.75L) / (n + 0.5L)), pp = 0;
      for (int it = 0; it < 60; ++it) {
        ld p1 = 1, p2 = 0;
        for (int j = 0; j < n; ++j) { ld p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); }
        pp = n * (z * p1 - p2) / (z * z - 1);
        ld z1 = z; z = z1 - p1 / pp; if (fabsl(z - z1) < 1e-19L) break;
      }
      xs[i] = (1 - z) / 2; ws[i] = 1 / ((1 - z * z) * pp * pp);
    }
  }
  static void quad(const Sx& x, ld V, int order, std::vector<ld>& out) {
    static ld gx[16][16], gw[16][16]; static bool have[16];
    int n = (order + N + 1) / 2 + 1; if (n > 15) n = 15;
    if (!have[n]) { gauss(n, gx[n], gw[n]); have[n] = true; }
    ld f = 1; for (int i = 2; i <= N; ++i) f *= i;
    int idx[N]; for (int i = 0; i < N; ++i) idx[i] = 0;
    for (;;) {
      // collapsed coordinates -> barycentric
      ld lam[N + 1], rest = 1, w = 1;
      for (int i = 0; i < N; ++i) { ld u = gx[n][idx[i]]; w *= gw[n][idx[i]] * powi(1 - u, N - 1 - i); lam[i] = rest * u; rest *= 1 - u; }
      lam[N] = rest;
      ld p[N]; for (int a = 0; a < N; ++a) { p[a] = 0; for (int i = 0; i <= N; ++i) p[a] += lam[i] * x.v[i][a]; }
      ld pw[N][16]; for (int a = 0; a < N; ++a) { pw[a][0] = 1; for (int k = 1; k <= order; ++k) pw[a][k] = pw[a][k - 1] * p[a]; }
      int m = 0; ld ww = w * f * V;
      for (int o = 0; o <= order; ++o) mono(0, o, 1, pw, ww, m, out);
      int k = 0; while (k < N && ++idx[k] == n) idx[k++] = 0;
      if (k == N) break;
    }
  }
  static ld powi(ld b, int e) { ld r = 1; while (e-- > 0) r *= b; return r; }
  static void mono(int a, int left, ld acc, const ld pw[N][16], ld w, int& m, std::vector<ld>& out) {
    if (a == N - 1) { out[m++] += w * acc * pw[a][left]; return; }
    for (int e = left; e >= 0; --e) mono(a + 1, left - e, acc * pw[a][e], pw, w, m, out);
  }
  // admissible deviation of a moment of the given degree
  ld tol(int degree) const { ld r = std::max(R, 1e-3L * REFUNIT); return 1000.0L * (E + EPS * r) * powi(r, N - 1 + degree) + 1e-300L; }
  bool bbox(ld* lo, ld* hi) const {
    if (s.empty()) return false;
    for (int j = 0; j < N; ++j) { lo[j] = 1e300L; hi[j] = -1e300L; }
    for (auto& x : s) for (int i = 0; i <= N; ++i) for (int j = 0; j < N; ++j) { lo[j] = std::min(lo[j], x.v[i][j]); hi[j] = std::max(hi[j], x.v[i][j]); }
    return true;
  }
};
// degree of each moment in row-major order
template <int N> static inline std::vector<int> mom_degrees(int order) {
  std::vector<int> d; for (int o = 0; o <= order; ++o) { int c = Ref<N>::nmom(o) - (o ? Ref<N>::nmom(o - 1) : 0); for (int i = 0; i < c; ++i) d.push_back(o); }
  return d;
}
