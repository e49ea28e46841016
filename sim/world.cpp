#include "world.h"
#include <cmath>
#include <functional>

BufPool pool;
unsigned g_checks = 0;
World* W = nullptr;

World::~World() {
  for (auto& s : s2) if (s.second.have) pool.put(s.second.g);
  for (auto& s : s3) if (s.second.have) pool.put(s.second.g);
  for (auto& s : s4) if (s.second.have) pool.put(s.second.g);
  for (auto& s : br) if (s.second.have) pool.put(s.second.g);
  for (auto& g : depbuf) pool.put(g.second);
  for (auto& g : g2) if (g.second.n) pool.put(g.second.g);
  for (auto& g : g3) if (g.second.n) pool.put(g.second.g);
  for (auto& g : g4) if (g.second.n) pool.put(g.second.g);
}

// ---------------------------------------------------------------- calls
static u64 lim(double x) { return x > 4e9 ? (u64)4e9 : (u64)x; }
struct Ctx { TaskCtl* c; const Op& op; Res& r; };
template <class F> static bool call(Ctx& x, double budget, F f) {
  int k = x.r.calls++;
  if (W->stopat) { auto it = W->stopat->find(x.op.id); if (it != W->stopat->end() && it->second == k) { x.r.state = 2; return false; } }
  x.c->budget = x.c->steps + lim(3e6 + budget);
  if (libcall(x.c, f)) return true;
  x.r.state = 2; return false;
}
// a call made by the checker itself: never scheduled, never abandoned
template <class F> static void quiet(Ctx& x, double budget, F f) {
  bool s = sim.sched; sim.sched = false;
  TaskCtl q; q.id = x.c->id; q.op = x.op.id; q.opname = x.c->opname; q.budget = lim(3e6 + budget);
  q.mx = 0x1f80;
  libcall(&q, f);
  sim.sched = s;
}
// Pieces with coincident vertices have no moments in N dimensions: the integrator is not defined for them, its result is NaN.
template <class D, class F> static bool undefined4(Ctx& x, typename D::Poly* p, double budget, F f) {
  if (D::N != 4 || !sim.fpenv) return false;
  Arg<typename D::Poly> t(p, 1); bool s = sim.sched, bad; sim.sched = false; sim.fpdry = true;
  { TaskCtl q; q.id = x.c->id; q.op = x.op.id; q.opname = x.c->opname; q.budget = lim(3e6 + budget); q.mx = x.c->mx | 0x1f80; libcall(&q, [&] { bad = f(t.p); }); }
  sim.sched = s; sim.fpdry = false; if (bad) sim.st.probes["coincident4"]++;
  return bad;
}
template <class D> static bool undefined4_vox(Ctx& x, typename D::Poly* p, typename D::DV* ib, size_t tot, double budget, const typename D::RV& d, int order) {
  if (D::N != 4 || !sim.fpenv) return false;
  Arg<double> g(tot); for (size_t i = 0; i < tot; ++i) g.p[i] = 0; Arg<typename D::DV> ai(ib, 2);
  return undefined4<D>(x, p, budget, [&](typename D::Poly* q) { (void)D::vox(q, ai.p, g.p, d, order); for (size_t i = 0; i < tot; ++i) if (!(g.p[i] - g.p[i] == 0)) return true; return false; });
}

template <class D> static double cost_clip(int n, int np) { double m = n + 8; return np * (200.0 * D::CAP + 600.0 * m * m + 20000.0 * m); }
template <class D> static double cost_reduce(int n, int nm) { double m = n + 4; return D::N == 4 ? 60000.0 * m : 3000.0 * m * (nm + 8) + 40.0 * m * m + 50.0 * D::CAP; }
template <class D> static double cost_good(int n) { double m = n + 4; return D::N == 2 ? 2000 * m * m + 100.0 * D::CAP : D::N == 3 ? 400 * m * m * m + 20.0 * D::CAP * m * m : 300 * m * m * m * m + 20.0 * D::CAP * m * m * m; }
template <class D> static double cost_vox(int n, double cells, int nm) { double m = std::min<double>(D::CAP, 4 * n + 64); return (2 * cells + 64) * (100.0 * D::CAP + 300.0 * m * m + cost_reduce<D>((int)m, nm)); }

// ---------------------------------------------------------------- graphs and digests
template <class D> static void hash_poly(Hash& h, typename D::Poly* p) {
  h.add((u64)(p->nverts > 0 ? p->nverts : 0));
  for (int v = 0; v < p->nverts && v < D::CAP; ++v) {
    for (int k = 0; k < D::NB; ++k) h.add((u64)p->verts[v].pnbrs[k]);
    double* q = D::xyz(p->verts[v].pos); for (int k = 0; k < D::N; ++k) hd(h, q[k]);
    if constexpr (D::N == 4) for (int a = 0; a < D::N; ++a) for (int b = 0; b < D::N; ++b) if (a != b) h.add((u64)p->verts[v].finds[a][b]);
  }
}
template <class D> static void graph_check(Ctx& x, typename D::Poly* p, const char* what) {
  int n = p->nverts;
  if (n < 0 || n > D::CAP) violate("bad-graph", "%s: vertex count %d outside 0..%d after op %d %s", what, n, (int)D::CAP, x.op.id, x.op.name.c_str());
  for (int v = 0; v < n; ++v) for (int k = 0; k < D::NB; ++k) {
    int w = p->verts[v].pnbrs[k];
    if (w < 0 || w >= n) violate("bad-graph", "%s: vertex %d of %d has neighbour %d after op %d %s", what, v, n, w, x.op.id, x.op.name.c_str());
  }
  for (int v = 0; v < n; ++v) {
    for (int k = 0; k < D::NB; ++k) {
      int w = p->verts[v].pnbrs[k], a = 0, b = 0;
      for (int j = 0; j < D::NB; ++j) { a += p->verts[v].pnbrs[j] == w; b += p->verts[w].pnbrs[j] == v; }
      if (a != b) violate("bad-graph", "%s: edge %d-%d not mutual after op %d %s", what, v, w, x.op.id, x.op.name.c_str());
    }
    double* q = D::xyz(p->verts[v].pos);
    for (int k = 0; k < D::N; ++k) if (!std::isfinite(q[k])) violate("bad-graph", "%s: vertex %d not finite after op %d %s", what, v, x.op.id, x.op.name.c_str());
    if constexpr (D::N == 2) { int w = p->verts[v].pnbrs[0]; if (p->verts[w].pnbrs[1] != v) violate("bad-graph", "%s: successor and predecessor of %d disagree after op %d %s", what, v, x.op.id, x.op.name.c_str()); }
  }
}
// conditioning of the N-D integrator at a vertex figure: 1/(shortest edge * independence of the edges)
static double cond4(rNd_poly* p) {
  double worst = 1;
  for (int v = 0; v < p->nverts; ++v) {
    ld m[4][4]; double minl = 1e300, maxc = 0;
    for (int k = 0; k < 4; ++k) {
      double l = 0; for (int j = 0; j < 4; ++j) { double e = p->verts[v].pos.xyz[j] - p->verts[p->verts[v].pnbrs[k]].pos.xyz[j]; m[k][j] = e; l += e * e; maxc = std::max(maxc, std::fabs(p->verts[v].pos.xyz[j])); }
      l = std::sqrt(l); minl = std::min(minl, l); if (l > 0) for (int j = 0; j < 4; ++j) m[k][j] /= l;
    }
    double det = (double)fabsl(Ref<4>::det(m));
    if (!(det > 0) || !(minl > 0)) return 1e300;
    worst = std::max(worst, std::max(1.0, maxc / minl) / det);
  }
  return worst;
}
// the N-D integrator divides by edge lengths and is not defined for coincident vertices
template <class D> static bool well(typename D::Poly* p) { if constexpr (D::N == 4) { if (p->nverts > 0 && cond4(p) > 1e7) { sim.st.probes["illconditioned"]++; return false; } } (void)p; return true; }
u64 g_maxratio_n = 0; static std::map<std::string, double> g_ratio;
static void ratio(const char* k, double r) { double& m = g_ratio[k]; if (r > m) m = r; }
std::string ratios() { std::string s; char b[100]; for (auto& kv : g_ratio) { snprintf(b, sizeof b, " %s=%.3g", kv.first.c_str(), kv.second); s += b; } return s; }

template <class D> static ld moment_tol(Slot<D>& s, int deg) {
  if constexpr (D::N == 4) {
    double c = cond4(s.p()); ld r = std::max(1e-3L * REFUNIT, s.ref.R);
    ld v = r * r * r * r;
    return 1e4L * 2.3e-16L * c * v * (s.p()->nverts + 1) + s.ref.tol(deg);
  } else return s.ref.tol(deg);
}
// The region an object's own vertices describe, with no regard to where it came from: a fan for each face from the
// centre of the vertices.  r: radius about that centre; skew: how far the faces are from flat; tri: triangles.
template <int N> struct Own { Ref<N> ref; ld c[N], r = 0, R = 0, skew = 0; int tri = 0; };
static bool own_region(r3d_poly* p, Own<3>& o) {
  int n = p->nverts; for (int j = 0; j < 3; ++j) { o.c[j] = 0; for (int v = 0; v < n; ++v) o.c[j] += (ld)p->verts[v].pos.xyz[j] / n; }
  for (int v = 0; v < n; ++v) { ld l = 0; for (int j = 0; j < 3; ++j) { ld q = p->verts[v].pos.xyz[j]; o.R = std::max(o.R, fabsl(q)); l += (q - o.c[j]) * (q - o.c[j]); } o.r = std::max(o.r, sqrtl(l)); }
  std::vector<std::array<char, 3>> seen((size_t)n, {0, 0, 0});
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) {
    if (seen[(size_t)v][(size_t)k]) continue;
    std::vector<int> f; int a = v, b = k;
    for (int guard = 0; guard <= 3 * n; ++guard) {
      if (seen[(size_t)a][(size_t)b]) break;
      seen[(size_t)a][(size_t)b] = 1; f.push_back(a); int w = p->verts[a].pnbrs[b]; if (w < 0 || w >= n) return false;
      int q = 0; while (q < 3 && p->verts[w].pnbrs[q] != a) ++q;
      if (q == 3) return false;
      a = w; b = (q + 1) % 3;
    }
    if (f.size() < 3) continue;
    auto P = [&](size_t i, int j) { return (ld)p->verts[f[i]].pos.xyz[j]; };
    ld nn[3] = {0, 0, 0}, l = 0;
    for (size_t i = 1; i + 1 < f.size(); ++i) {
      Ref<3>::Sx x; for (int j = 0; j < 3; ++j) { x.v[0][j] = o.c[j]; x.v[1][j] = P(0, j); x.v[2][j] = P(i + 1, j); x.v[3][j] = P(i, j); }
      ld vol = Ref<3>::signedvol(x); x.sign = vol > 0 ? 1 : -1; if (vol != 0) o.ref.s.push_back(x); o.tri++;
      for (int j = 0; j < 3; ++j) { int u = (j + 1) % 3, w = (j + 2) % 3; nn[j] += (P(i, u) - P(0, u)) * (P(i + 1, w) - P(0, w)) - (P(i, w) - P(0, w)) * (P(i + 1, u) - P(0, u)); }
    }
    if (f.size() > 3) { for (ld z : nn) l += z * z; l = sqrtl(l); ld dev = 0;
      if (l > 1e-9L * o.r * o.r) for (size_t i = 1; i < f.size(); ++i) { ld e = 0; for (int j = 0; j < 3; ++j) e += nn[j] / l * (P(i, j) - P(0, j)); dev = std::max(dev, fabsl(e)); }
      else for (size_t i = 1; i < f.size(); ++i) for (int j = 0; j < 3; ++j) dev = std::max(dev, fabsl(P(i, j) - P(0, j)));
      o.skew += dev; }
  }
  o.ref.R = o.R; return true;
}
static bool own_region(r2d_poly* p, Own<2>& o) {
  int n = p->nverts; for (int j = 0; j < 2; ++j) { o.c[j] = 0; for (int v = 0; v < n; ++v) o.c[j] += (ld)p->verts[v].pos.xy[j] / n; }
  for (int v = 0; v < n; ++v) { ld l = 0; for (int j = 0; j < 2; ++j) { ld q = p->verts[v].pos.xy[j]; o.R = std::max(o.R, fabsl(q)); l += (q - o.c[j]) * (q - o.c[j]); } o.r = std::max(o.r, sqrtl(l)); }
  for (int v = 0; v < n; ++v) { int w = p->verts[v].pnbrs[0]; if (w < 0 || w >= n) return false; Ref<2>::Sx x; for (int j = 0; j < 2; ++j) { x.v[0][j] = o.c[j]; x.v[1][j] = p->verts[v].pos.xy[j]; x.v[2][j] = p->verts[w].pos.xy[j]; } ld vol = Ref<2>::signedvol(x); x.sign = vol > 0 ? 1 : -1; if (vol != 0) o.ref.s.push_back(x); o.tri++; }
  o.ref.R = o.R; return true;
}
template <int N> static ld far_tol(const Own<N>& o, int deg, int order) {
  static const bool shifted = N == 3 || !strcmp(VARIANT, "C") || !strcmp(VARIANT, "S");   // the 2-D library measures about the origin unless built with SHIFT_POLY
  ld r = shifted ? o.r : o.R + o.r; return (16 * Ref<N>::EPS * (o.tri + 4) * (1 + order) * Ref<N>::powi(r, N) + 4 * o.skew * Ref<N>::powi(o.r, N - 1)) * Ref<N>::powi(o.R + o.r, deg) + 1e-300L;
}
template <class D> static void far_check(Ctx& x, typename D::Poly* p, int order, const double* got, const char* what) {
  if constexpr (D::N < 4) {
    if (!(g_checks & CK_FAR) || p->nverts <= 0 || p->nverts > 300) return;
    Own<D::N> o; if (!own_region(p, o) || o.ref.s.size() > (order > 5 ? 60u : 600u)) return;
    std::vector<ld> want; o.ref.moments(order, want); if (o.ref.s.empty()) want.assign((size_t)D::nmom(order), 0); auto deg = mom_degrees<D::N>(order);
    for (size_t i = 0; i < want.size(); ++i) { ld t = far_tol<D::N>(o, deg[i], order), e = fabsl((ld)got[i] - want[i]); sim.st.refchecks++; if (e == e) ratio(D::N == 2 ? "far2" : "far3", (double)(e / t));
      if (!(e <= t)) violate("inaccurate", "%s: moment %zu of order %d is %.17g, the object's vertices give %.17Lg (tolerance %.2Lg; radius %.2Lg at %.2Lg), op %d %s", what, i, order, got[i], want[i], t, o.r, o.R, x.op.id, x.op.name.c_str()); }
  }
}
template <class D> static void measure_check(Ctx& x, Slot<D>& s, const char* what) {
  if (!W->refs || !(g_checks & CK_REF) || !s.refok || s.state != LIVE) return;
  if (s.ref.overflow) { s.refok = false; return; }
  Rng r(mix64(0x5a17 ^ (u64)x.op.id * 7919 ^ (sim.plan ? sim.plan->seed : 0)));
  int order = 0;
  if (D::N < 4) { double u = r.uni(); order = u < 0.4 ? 0 : u < 0.6 ? 1 : u < 0.85 ? 2 : 3; if (s.ref.s.size() < 80 && u > 0.94) order = 4 + (int)r.below(4); if (s.ref.s.size() > 800) order = std::min(order, 2); }
  int nm = D::nmom(order);
  std::vector<double> m(nm + 1, 0.0);
  Arg<double> out((size_t)nm); for (int i = 0; i < nm; ++i) out.p[i] = 7.5e77;
  quiet(x, cost_reduce<D>(s.p()->nverts, nm), [&] { D::reduce(s.p(), out.p, order); });
  if constexpr (D::N == 4) if (s.p()->nverts > 0 && cond4(s.p()) > 1e8) { sim.st.probes["illconditioned"]++; return; }
  std::vector<ld> want; s.ref.moments(order, want);
  auto deg = mom_degrees<D::N>(order);
  for (int i = 0; i < nm; ++i) {
    ld t = moment_tol<D>(s, deg[i]);
    ld e = fabsl((ld)out.p[i] - want[i]);
    sim.st.refchecks++;
    if (e == e) ratio(D::N == 2 ? "ref2" : D::N == 3 ? "ref3" : "ref4", (double)(e / t));
    if (!(e <= t)) violate("wrong-region", "%s: moment %d (order %d) is %.17g, the region denoted has %.17Lg (tolerance %.2Lg) after op %d %s", what, i, order, out.p[i], want[i], t, x.op.id, x.op.name.c_str());
  }
}
template <class D> static void scribble_tail(Slot<D>& s, u64 tag) {
  if (!W->scribble || s.state != LIVE) return;
  int n = std::max(0, (int)s.p()->nverts);
  if (n < D::CAP) fill_garbage(&s.p()->verts[n], sizeof(s.p()->verts[0]) * (size_t)(D::CAP - n), W->gseed ^ mix64(tag));
}
template <class D> static void done_live(Ctx& x, Slot<D>& s, const char* what, Hash& h) {
  s.state = LIVE;
  if (s.p()->nverts < 0 || s.p()->nverts > D::CAP) violate("bad-graph", "%s: vertex count %d outside 0..%d after op %d %s", what, s.p()->nverts, (int)D::CAP, x.op.id, x.op.name.c_str());
  if (g_checks & CK_GRAPH) graph_check<D>(x, s.p(), what);
  hash_poly<D>(h, s.p());
  measure_check<D>(x, s, what);
  scribble_tail<D>(s, (u64)x.op.id * 31 + 5);
}

// ---------------------------------------------------------------- reference helpers
template <class D> static RefPlane<D::N> rp(const typename D::Plane& pl) {
  RefPlane<D::N> q; typename D::Plane c = pl; double* n = D::xyz(c.n); for (int j = 0; j < D::N; ++j) q.n[j] = n[j]; q.d = pl.d; return q;
}
template <int N> static void ref_box(Ref<N>& ref, const double* lo, const double* hi) {
  ref.clear();
  int perm[N]; for (int i = 0; i < N; ++i) perm[i] = i;
  do {
    typename Ref<N>::Sx x; int at[N]; for (int i = 0; i < N; ++i) at[i] = 0;
    for (int i = 0; i <= N; ++i) { for (int j = 0; j < N; ++j) x.v[i][j] = at[j] ? hi[j] : lo[j]; if (i < N) at[perm[i]] = 1; }
    ref.add(x); if (!ref.s.empty()) ref.s.back().sign = 1;
  } while (std::next_permutation(perm, perm + N));
}
// every cell of an index box: pieces of the region by recursive bisection
template <int N, class F> static void ref_cells(const Ref<N>& ref, const int* lo, const int* hi, const double* d, F f) {
  int ax = 0, best = 0; for (int j = 0; j < N; ++j) if (hi[j] - lo[j] > best) { best = hi[j] - lo[j]; ax = j; }
  if (best <= 1 || ref.s.empty()) { f(ref, lo, hi); return; }
  int mid = lo[ax] + best / 2;
  RefPlane<N> pl; for (int j = 0; j < N; ++j) pl.n[j] = 0; pl.n[ax] = 1; pl.d = -(ld)mid * (ld)d[ax];
  Ref<N> a, b; ref.split(pl, a, b);
  int h2[N], l2[N]; for (int j = 0; j < N; ++j) { h2[j] = hi[j]; l2[j] = lo[j]; } h2[ax] = mid; l2[ax] = mid;
  ref_cells<N>(b, lo, h2, d, f); ref_cells<N>(a, l2, hi, d, f);
}
template <class D> static bool want_cells(const Ref<D::N>& ref, const int* lo, const int* hi, const double* d, int order, std::vector<ld>& want) {
  int nm = D::nmom(order); size_t cells = 1; for (int j = 0; j < D::N; ++j) cells *= (size_t)(hi[j] - lo[j]);
  want.assign(cells * nm, 0);
  bool ok = !ref.overflow;
  Ref<D::N> in = ref;   // the box may be smaller than the region
  for (int j = 0; j < D::N; ++j) for (int k = 0; k < 2; ++k) { RefPlane<D::N> pl; for (int i = 0; i < D::N; ++i) pl.n[i] = 0; pl.n[j] = k ? -1 : 1; pl.d = k ? (ld)hi[j] * (ld)d[j] : -(ld)lo[j] * (ld)d[j]; in.clip(pl); }
  ref_cells<D::N>(in, lo, hi, d, [&](const Ref<D::N>& r, const int* l, const int*) {
    if (r.overflow) ok = false;
    if (r.s.empty()) return;
    size_t at = 0; for (int j = 0; j < D::N; ++j) at = at * (size_t)(hi[j] - lo[j]) + (size_t)(l[j] - lo[j]);
    std::vector<ld> m; r.moments(order, m); for (int k = 0; k < nm; ++k) want[at * nm + k] += m[k];
  });
  return ok;
}
// largest coordinate involved, for absolute tolerances of cell moments
template <class D> static ld cell_tol(const Ref<D::N>& ref, int deg, const double* d, const int* lo, const int* hi) {
  ld r = ref.R; for (int j = 0; j < D::N; ++j) r = std::max(r, (ld)std::max(std::abs(lo[j]), std::abs(hi[j])) * (ld)d[j]);
  r = std::max(r, 1e-3L * REFUNIT);
  if (D::N == 4) return 1e-7L * Ref<D::N>::powi(r, D::N) + 2000.0L * (ref.E + ref.EPS * r) * Ref<D::N>::powi(r, D::N - 1);
  return 20000.0L * (ref.E + 8 * ref.EPS * r) * Ref<D::N>::powi(r, D::N - 1 + deg) + 1e-300L;
}
static inline double sentinel(size_t i, u64 seed) { return (double)(REFUNIT * REFUNIT) * ((double)(long)(mix64(seed + i) >> 44) * 0x1p-10 - 300.0); }

// cells of an object far from the origin: the cuts are as exact as the coordinates allow, the moments as the pieces do
template <class D> static void far_cells(Ctx& x, typename D::Poly* p, const int* lo, const int* hi, const double* d, int order, const double* got, const double* before) {
  if constexpr (D::N < 4) {
    if (!(g_checks & CK_FAR) || p->nverts <= 0 || p->nverts > 100) return;
    Own<D::N> o; std::vector<ld> want; if (!own_region(p, o) || o.ref.s.empty() || o.ref.s.size() > 150 || !want_cells<D>(o.ref, lo, hi, d, order, want)) return;
    int nm = D::nmom(order); auto deg = mom_degrees<D::N>(order);
    for (size_t i = 0; i < want.size(); ++i) { int k = (int)(i % (size_t)nm); ld t = far_tol<D::N>(o, deg[(size_t)k], order) + 600 * Ref<D::N>::EPS * (o.R + o.r) * Ref<D::N>::powi(o.r, D::N - 1) * Ref<D::N>::powi(o.R + o.r, deg[(size_t)k]) + 4e-16L * fabsl((ld)before[i]), e = fabsl((ld)got[i] - before[i] - want[i]); sim.st.refchecks++; if (e == e) ratio(D::N == 2 ? "farcell2" : "farcell3", (double)(e / t));
      if (!(e <= t)) violate("inaccurate", "cell %zu moment %d is %.17g over %.17g, should be %.17Lg (tolerance %.2Lg; radius %.2Lg at %.2Lg), op %d %s", i / (size_t)nm, k, got[i], before[i], want[i], t, o.r, o.R, x.op.id, x.op.name.c_str()); }
  }
}
template <class D> static void centre_check(Ctx& x, typename D::Poly* p, const double* c) {
  if (!(g_checks & CK_FAR)) return;
  for (int j = 0; j < D::N; ++j) { ld mn = 1e300L, mx = -1e300L; for (int v = 0; v < p->nverts; ++v) { ld q = D::xyz(p->verts[v].pos)[j]; mn = std::min(mn, q); mx = std::max(mx, q); }
    ld t = 4 * p->nverts * 2.3e-16L * std::max(fabsl(mn), fabsl(mx)); sim.st.refchecks++;
    if (!(c[j] >= mn - t && c[j] <= mx + t)) violate("inaccurate", "centre coordinate %d is %.17g, the object lies between %.17Lg and %.17Lg, op %d %s", j, c[j], mn, mx, x.op.id, x.op.name.c_str()); }
}
// compares a grid patch with what it held before plus the region's cell moments
template <class D> static void check_cells(Ctx& x, const char* what, const Ref<D::N>& ref, const int* lo, const int* hi, const double* d, int order, const double* got, const double* before) {
  std::vector<ld> want;
  if (!want_cells<D>(ref, lo, hi, d, order, want)) return;
  int nm = D::nmom(order); auto deg = mom_degrees<D::N>(order);
  size_t cells = want.size() / nm;
  for (size_t c = 0; c < cells; ++c) {
    for (int k = 0; k < nm; ++k) {
      double b = before ? before[c * nm + k] : 0;
      double g = got[c * nm + k];
      sim.st.refchecks++;
      ld tol = cell_tol<D>(ref, deg[k], d, lo, hi) + 4e-16L * fabsl((ld)b) + 4e-16L * fabsl((ld)g);
      ld e = fabsl((ld)g - (ld)b - want[c * nm + k]);
      if (e == e) ratio(D::N == 2 ? "cell2" : D::N == 3 ? "cell3" : "cell4", (double)(e / tol));
      if (!(e <= tol)) violate("wrong-cell", "%s: cell %zu moment %d is %.17g over %.17g, the part of the polytope inside has %.17Lg (tolerance %.2Lg), op %d %s", what, c, k, g, b, want[c * nm + k], tol, x.op.id, x.op.name.c_str());
    }
  }
}

// protection of whole objects used as inputs
template <class D> struct Prot {
  Slot<D>& s; bool on;
  Prot(Slot<D>& s_, const char* what) : s(s_), on(g_checks & CK_RO) { if (on && s.prot++ == 0) { guarded_protect(s.g, true); ro_region(s.g.base, s.g.pages * 4096, what, true); } if (on) sim.st.ro++; }
  ~Prot() { if (on && --s.prot == 0) { guarded_protect(s.g, false); ro_region(s.g.base, 0, "", false); } }
};

// vertices needed while one plane is processed; -1 when rounding decides
template <class D> static int crossings(typename D::Poly* p, const typename D::Plane& pl) {
  RefPlane<D::N> q = rp<D>(pl); int c = 0;
  std::vector<int> side((size_t)std::max(0, (int)p->nverts));
  for (int v = 0; v < p->nverts; ++v) { ld pos[D::N]; double* a = D::xyz(p->verts[v].pos); ld mag = fabsl(q.d); for (int j = 0; j < D::N; ++j) { pos[j] = a[j]; mag += fabsl(q.n[j] * pos[j]); }
    ld s = Ref<D::N>::sd(pos, q); if (s != 0 && fabsl(s) < 1e-14L * (mag + 1e-6L * REFUNIT)) return -1; side[(size_t)v] = s < 0; }
  for (int v = 0; v < p->nverts; ++v) if (!side[(size_t)v]) for (int k = 0; k < D::NB; ++k) { int w = p->verts[v].pnbrs[k]; if (w >= 0 && w < p->nverts) c += side[(size_t)w]; }
  return c;
}
template <class D> static void side_check(Ctx& x, Slot<D>& s, const typename D::Plane& pl, int sign, const char* what) {
  if (!(g_checks & CK_SIDE) || !W->refs || !s.refok) return;
  RefPlane<D::N> q = rp<D>(pl);
  ld tol = 200.0L * (s.ref.E + 8 * s.ref.EPS * (s.ref.R + fabsl(q.d) + REFUNIT));
  for (int v = 0; v < s.p()->nverts; ++v) { ld pos[D::N]; double* a = D::xyz(s.p()->verts[v].pos); for (int j = 0; j < D::N; ++j) pos[j] = a[j];
    ld d = sign * Ref<D::N>::sd(pos, q); if (!(d >= -tol)) violate("wrong-side", "%s: vertex %d lies %.3Lg beyond the plane after op %d %s", what, v, d, x.op.id, x.op.name.c_str()); }
}

// ---------------------------------------------------------------- validity of vertex graphs, judged independently
// 1 valid, 0 invalid, -1 not judged (2D: edges mutual but successor and predecessor disagree)
template <class D> static int valid_graph(typename D::Poly* p) {
  int n = p->nverts; constexpr int N = D::NB;
  for (int v = 0; v < n; ++v) for (int k = 0; k < N; ++k) {
    int w = p->verts[v].pnbrs[k]; if (w < 0 || w >= n || w == v) return 0;
    for (int j = 0; j < k; ++j) if (p->verts[v].pnbrs[j] == w) return 0;
  }
  bool oriented = true;
  for (int v = 0; v < n; ++v) for (int k = 0; k < N; ++k) { int w = p->verts[v].pnbrs[k]; bool back = false; for (int j = 0; j < N; ++j) back = back || p->verts[w].pnbrs[j] == v; if (!back) return 0; if (D::N == 2 && p->verts[w].pnbrs[1 - k] != v) oriented = false; }
  if (D::N == 2) return oriented ? 1 : -1;
  std::vector<int> comp((size_t)n, -1); int nc = 0;
  for (int v = 0; v < n; ++v) if (comp[(size_t)v] < 0) { std::vector<int> st{v}; comp[(size_t)v] = nc; while (!st.empty()) { int a = st.back(); st.pop_back(); for (int k = 0; k < N; ++k) { int w = p->verts[a].pnbrs[k]; if (comp[(size_t)w] < 0) { comp[(size_t)w] = nc; st.push_back(w); } } } ++nc; }
  for (int c = 0; c < nc; ++c) {   // still in one piece after taking away any N-1 vertices
    std::vector<int> in; for (int v = 0; v < n; ++v) if (comp[(size_t)v] == c) in.push_back(v);
    int m = (int)in.size(); std::vector<int> pick; std::vector<char> seen((size_t)n);
    std::function<bool(int)> go = [&](int from) -> bool {
      if ((int)pick.size() == D::N - 1) {
        std::fill(seen.begin(), seen.end(), 0); for (int i : pick) seen[(size_t)i] = 1;
        int s = -1; for (int v : in) if (!seen[(size_t)v]) { s = v; break; } if (s < 0) return true;
        int cnt = 1; std::vector<int> st{s}; seen[(size_t)s] = 1; while (!st.empty()) { int a = st.back(); st.pop_back(); for (int k = 0; k < N; ++k) { int w = p->verts[a].pnbrs[k]; if (!seen[(size_t)w]) { seen[(size_t)w] = 1; ++cnt; st.push_back(w); } } }
        return cnt == m - (D::N - 1);
      }
      for (int i = from; i < m; ++i) { pick.push_back(in[(size_t)i]); bool ok = go(i + 1); pick.pop_back(); if (!ok) return false; }
      return true;
    };
    if (!go(0)) return 0;
  }
  return 1;
}
template <class D> static void good_check(Ctx& x, typename D::Poly* p, int got, const char* what) {
  if (!(g_checks & CK_GOOD)) return;
  int want = valid_graph<D>(p); sim.st.probes[want == 1 ? "valid_graphs" : want == 0 ? "invalid_graphs" : "unjudged_graphs"]++;
  if (want >= 0 && (got != 0) != (want == 1)) violate("wrong-verdict", "%s: the validity check says %d for %s graph of %d vertices, op %d %s", what, got, want ? "a valid" : "an invalid", p->nverts, x.op.id, x.op.name.c_str());
}
template <class D> static int good_limit() { return W->goodbig ? (D::N == 2 ? 700 : D::N == 3 ? 270 : 64) : D::N == 2 ? 400 : D::N == 3 ? 130 : 34; }

static const char* nm_slot(long id) { static char b[4][32]; static int k; k = (k + 1) & 3; snprintf(b[k], 32, "object %ld", id); return b[k]; }

// ---------------------------------------------------------------- operations common to all dimensions
template <class D> static typename D::RV rv(const double* p) { typename D::RV v; double* q = D::xyz(v); for (int j = 0; j < D::N; ++j) q[j] = p[j]; return v; }

template <class D> static void capfail(Ctx& x, Slot<D>& s) { s.state = DEAD; x.r.status = 0; sim.st.capfails++; }

template <class D> static bool do_clip(Ctx& x, Slot<D>& s, long id, const std::vector<typename D::Plane>& pls, Hash& h, const std::vector<RefPlane<D::N>>* exact = nullptr) {
  typedef typename D::Plane Plane;
  int n0 = s.p()->nverts, np = (int)pls.size();
  bool must = false;
  if ((g_checks & CK_MUST) && n0 > 0) {
    // replay plane by plane on a twin to learn the intermediate sizes
    Arg<typename D::Poly> tw(s.p(), 1); must = true;
    for (int k = 0; k < np && must; ++k) {
      int c = crossings<D>(tw.p, pls[k]);
      if (c < 0 || tw.p->nverts + c > D::CAP) { must = false; break; }
      Arg<Plane> one(&pls[k], 1); int st = 1; quiet(x, cost_clip<D>(D::CAP, 1), [&] { st = D::clip(tw.p, one.p, 1); });
      if (!st) violate("spurious-failure", "clip of %d vertices by a plane crossing %d edges fails although %d fit, op %d %s", tw.p->nverts, c, (int)D::CAP, x.op.id, x.op.name.c_str());
      if (tw.p->nverts <= 0) break;
    }
  }
  int st = 0;
  {
    Arg<Plane> a(pls.data(), (size_t)np); a.protect("clip planes");
    s.state = DEAD;
    if (!call(x, cost_clip<D>(D::CAP, np), [&] { st = D::clip(s.p(), a.p, np); })) return false;
  }
  if (n0 <= 0) { if (s.p()->nverts > 0 && (g_checks & CK_GRAPH)) violate("bad-graph", "clipping the empty object made %d vertices, op %d", s.p()->nverts, x.op.id); done_live<D>(x, s, nm_slot(id), h); x.r.status = 1; return true; }
  h.add((u64)(st != 0)); x.r.status = st != 0;
  if (!st) {
    if (must) violate("spurious-failure", "clip by %d planes fails although every intermediate result fits, op %d %s", np, x.op.id, x.op.name.c_str());
    capfail<D>(x, s); return true;
  }
  if (W->refs) { if (exact) { for (auto& p : *exact) s.ref.clip(p); s.ref.E += 16 * s.ref.EPS * (s.ref.R + 2 * REFUNIT); } else for (auto& p : pls) s.ref.clip(rp<D>(p)); }
  s.isbox = false;
  done_live<D>(x, s, nm_slot(id), h);
  for (auto& p : pls) side_check<D>(x, s, p, 1, nm_slot(id));
  return true;
}

template <class D> static bool ibox_of(Ctx& x, Slot<D>& s, typename D::DV* ib, const typename D::RV& d) {
  Prot<D> pr(s, "polytope whose index box is taken");
  Arg<typename D::DV> o(2); memset((void*)o.p, 0x5c, 2 * sizeof(typename D::DV));
  if (!call(x, 400.0 * (D::CAP + 64), [&] { D::ibox(s.p(), o.p, d); })) return false;
  ib[0] = o.p[0]; ib[1] = o.p[1];
  if ((g_checks & CK_IBOX) && s.p()->nverts > 0) for (int j = 0; j < D::N; ++j) {
    ld mn = 1e300L, mx = -1e300L; for (int v = 0; v < s.p()->nverts; ++v) { ld q = D::xyz(s.p()->verts[v].pos)[j]; mn = std::min(mn, q); mx = std::max(mx, q); }
    typename D::RV dd = d; for (int k = 0; k < 2; ++k) { ld q = (k ? mx : mn) / (ld)D::xyz(dd)[j], w = k ? ceill(q) : floorl(q), nr = roundl(q), got = D::ijk(ib[k])[j];
      if (got == w || (fabsl(q - nr) <= 4e-15L * std::max((ld)1, fabsl(q)) && fabsl(got - q) <= 1.5L)) continue;   // on a grid line up to rounding
      violate("wrong-ibox", "%s bound of the index box on axis %d is %.0Lf, the object ends at %.17Lg cells, op %d %s", k ? "upper" : "lower", j, got, q, x.op.id, x.op.name.c_str()); }
    sim.st.refchecks++; }
  return true;
}
template <class D> static double ncells(typename D::DV* ib) { double c = 1; for (int j = 0; j < D::N; ++j) { double w = (double)D::ijk(ib[1])[j] - D::ijk(ib[0])[j]; if (w <= 0) return 0; c *= w; } return c; }
template <class D> static double maxcells() { return D::N == 2 ? 900 : D::N == 3 ? 700 : 400; }

// A face on a grid plane can be cut in two by rounding, in pieces that were cut along another axis before.
template <class D> static bool on_grid(Slot<D>& s, typename D::RV d) {
  for (int v = 0; v < s.p()->nverts; ++v) for (int j = 0; j < D::N; ++j) { ld q = (ld)D::xyz(s.p()->verts[v].pos)[j] / (ld)D::xyz(d)[j]; if (fabsl(q - roundl(q)) <= 1e-12L * std::max((ld)1, fabsl(q))) return true; }
  return false;
}
template <class D> static bool vox_must(Slot<D>& s, const typename D::RV& d) {
  int n = s.p()->nverts;
  if (s.isbox) return D::CAP >= (2 << D::N) && (D::CAP >= (4 << D::N) || !on_grid<D>(s, d));
  if (!s.convex || !s.generic) return false;
  if (D::N == 2) return n + 12 <= D::CAP;
  if (D::N == 3) return 4 * (n + 14) <= D::CAP;
  return false;
}

template <int N> static ld simplex_measure(const std::vector<double>& dv) {
  ld m[N][N]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m[i][j] = (ld)dv[(size_t)((i + 1) * N + j)] - dv[(size_t)j];
  ld f = 1; for (int i = 2; i <= N; ++i) f *= i;
  return Ref<N>::det(m) / f;
}
template <class D> static void run_common(Ctx& x, const std::string& f) {
  typedef typename D::Poly Poly; typedef typename D::Plane Plane; typedef typename D::RV RV; typedef typename D::DV DV;
  const Op& op = x.op; const int N = D::N; Hash h; h.adds(op.name);
  auto I = [&](size_t k) -> long { return k < op.iv.size() ? op.iv[k] : 0; };
  auto F = [&](size_t k) -> double { return k < op.dv.size() ? op.dv[k] : 0.0; };
  auto live = [&](long id) -> Slot<D>* { Slot<D>& s = W->slot<D>(op.task, id); return s.state == LIVE ? &s : nullptr; };
  x.r.state = 1; x.r.status = 1;

  if (f == "box" || f == "simplex") {
    Slot<D>& s = W->slot<D>(op.task, I(0));
    if (W->scribble) fill_garbage(s.p(), sizeof(Poly), W->gseed ^ mix64((u64)op.id * 3 + 1));
    std::vector<RV> v; for (size_t k = 0; k * N + N <= op.dv.size(); ++k) v.push_back(rv<D>(&op.dv[k * N]));
    s.state = DEAD; int st = 1;
    {
      Arg<RV> a(v.data(), v.size()); a.protect("vertex or bounds array");
      if (!call(x, 20000, [&] { if (f == "box") D::box(s.p(), a.p); else st = D::simplex(s.p(), a.p); })) return;
    }
    if (!st) { x.r.status = 0; if (g_checks & CK_MUST) violate("spurious-failure", "initialising a simplex fails, op %d", op.id); capfail<D>(x, s); return; }
    s.convex = true; s.isbox = f == "box"; s.generic = true; s.refok = W->refs;
    if (W->refs) {
      s.ref.clear();
      if (f == "box") ref_box<D::N>(s.ref, D::xyz(v[0]), D::xyz(v[1]));
      else { typename Ref<D::N>::Sx t; for (int i = 0; i <= N; ++i) for (int j = 0; j < N; ++j) t.v[i][j] = D::xyz(v[i])[j]; s.ref.add(t); for (auto& q : s.ref.s) q.sign = 1; }
    }
    done_live<D>(x, s, nm_slot(I(0)), h);
  }
  else if (f == "copy") {
    Slot<D>* a = live(I(1)); Slot<D>& s = W->slot<D>(op.task, I(0));
    if (I(2) && s.state == LIVE) { x.r.state = 0; return; }   // only where the object was lost
    if (!a) { x.r.state = 0; if (W->taint) s.state = DEAD; return; }
    if (&s != a) { int n = std::max(0, (int)a->p()->nverts);
      if (W->scribble) fill_garbage(s.p(), sizeof(Poly), W->gseed ^ mix64((u64)op.id * 3 + 1));
      memcpy((void*)s.p()->verts, (const void*)a->p()->verts, sizeof(a->p()->verts[0]) * (size_t)n); s.p()->nverts = n; if constexpr (D::N == 4) s.p()->nfaces = a->p()->nfaces;
      s.state = LIVE; s.ref = a->ref; s.refok = a->refok; s.convex = a->convex; s.isbox = a->isbox; s.generic = a->generic; }
    hash_poly<D>(h, s.p());
  }
  else if (f == "clip") {
    Slot<D>* s = live(I(0)); if (!s) { x.r.state = 0; return; }
    std::vector<Plane> pls; size_t w = N + 1; for (size_t k = 0; k * w + w <= op.dv.size(); ++k) { Plane p; p.n = rv<D>(&op.dv[k * w]); p.d = op.dv[k * w + N]; pls.push_back(p); }
    if (!do_clip<D>(x, *s, I(0), pls, h)) return;
  }
  else if (f == "clipv") {   // plane through current vertices
    Slot<D>* s = live(I(0)); if (!s || s->p()->nverts <= 0) { x.r.state = 0; return; }
    int n = s->p()->nverts; Plane pl; double nn[4] = {0, 0, 0, 0};
    auto V = [&](long k) { return D::xyz(s->p()->verts[(size_t)(k % n)].pos); };
    double* a = V(I(2)); double* b = V(I(3)); double* c3 = V(I(4));
    if (I(6)) { auto& vx = s->p()->verts[(size_t)(I(2) % n)]; b = V(vx.pnbrs[I(3) % D::NB]); c3 = V(vx.pnbrs[(I(3) + 1) % D::NB]); }   // an edge or face of the object
    if (I(1) != 1) for (int j = 0; j < N; ++j) nn[j] = F((size_t)j);
    else if (N == 2) { nn[0] = -(b[1] - a[1]); nn[1] = b[0] - a[0]; }
    else { double* c = c3; double u[3], w[3]; for (int j = 0; j < 3; ++j) { u[j] = b[j] - a[j]; w[j] = c[j] - a[j]; } nn[0] = u[1] * w[2] - u[2] * w[1]; nn[1] = u[2] * w[0] - u[0] * w[2]; nn[2] = u[0] * w[1] - u[1] * w[0]; }
    double l = 0; for (int j = 0; j < N; ++j) l += nn[j] * nn[j]; l = std::sqrt(l);
    if (!(l > 1e-8 * (double)Ref<2>::powi(REFUNIT, N - 1))) { for (int j = 0; j < N; ++j) nn[j] = F((size_t)j); l = 1; }
    double sg = I(5) ? -1 : 1, d = 0; for (int j = 0; j < N; ++j) { nn[j] *= sg / l; d -= nn[j] * a[j]; }
    if (I(1) == 2) for (int v = 0; v < n; ++v) { double* q = V(v); double e = 0; for (int j = 0; j < N; ++j) e -= nn[j] * q[j]; d = std::max(d, e); }   // touches the object from outside
    d -= F((size_t)N);   // and this much deeper
    pl.n = rv<D>(nn); pl.d = d; s->generic = false;
    if (!do_clip<D>(x, *s, I(0), {pl}, h)) return;
  }
  else if (f == "split") {
    if constexpr (D::HASSPLIT) {
      int k = (int)I(0); std::vector<Slot<D>*> in, o1, o2;
      for (int i = 0; i < k; ++i) { Slot<D>* s = live(I((size_t)(1 + i))); if (!s) { x.r.state = 0; if (W->taint) for (int q = 0; q < 3 * k; ++q) W->slot<D>(op.task, I((size_t)(1 + q))).state = DEAD; return; } in.push_back(s); }
      Plane pl; pl.n = rv<D>(&op.dv[0]); pl.d = F((size_t)N);
      if (I((size_t)(1 + 3 * k))) { // through a vertex of the first object
        if (in[0]->p()->nverts > 0) { long at = I((size_t)(1 + 3 * k)); double* a = D::xyz(in[0]->p()->verts[(size_t)(at % in[0]->p()->nverts)].pos); double d = 0; for (int j = 0; j < N; ++j) d -= F((size_t)j) * a[j];
          if (at >= 1000) for (int v = 0; v < in[0]->p()->nverts; ++v) { double* q = D::xyz(in[0]->p()->verts[v].pos); double e = 0; for (int j = 0; j < N; ++j) e -= F((size_t)j) * q[j]; d = std::max(d, e); }
          pl.d = d - F((size_t)N + 1); for (auto* s : in) s->generic = false; } }
      Arg<Poly> ai((size_t)k), ap((size_t)k), an((size_t)k);
      for (int i = 0; i < k; ++i) memcpy((void*)&ai.p[i], (const void*)in[(size_t)i]->p(), sizeof(Poly));
      if (W->scribble) { fill_garbage(ap.p, sizeof(Poly) * (size_t)k, W->gseed ^ (u64)op.id); fill_garbage(an.p, sizeof(Poly) * (size_t)k, W->gseed ^ (u64)(op.id + 77)); }
      int firstbad = k; bool known = true; std::vector<int> nin;
      for (int i = 0; i < k; ++i) { nin.push_back(ai.p[i].nverts); int c = crossings<D>(&ai.p[i], pl); if (c < 0) known = false; else if (ai.p[i].nverts + 2 * c > D::CAP && firstbad == k) firstbad = i; }
      std::vector<Ref<D::N>> refs; std::vector<char> rok, cvx, gen; for (auto* s : in) { refs.push_back(W->refs ? s->ref : Ref<D::N>()); rok.push_back(s->refok); cvx.push_back(s->convex); gen.push_back(s->generic); }
      for (auto* s : in) s->state = DEAD;
      for (int i = 0; i < k; ++i) { o1.push_back(&W->slot<D>(op.task, I((size_t)(1 + k + i)))); o2.push_back(&W->slot<D>(op.task, I((size_t)(1 + 2 * k + i)))); o1.back()->state = o2.back()->state = DEAD; }
      int st = 0;
      if (!call(x, k * cost_clip<D>(D::CAP, 2), [&] { st = D::split(ai.p, k, pl, ap.p, an.p); })) return;
      h.add((u64)(st != 0)); x.r.status = st != 0;
      if (!st) { sim.st.capfails++; if ((g_checks & CK_MUST) && known && firstbad == k) violate("spurious-failure", "split fails although everything fits (%d vertices in the first of %d), op %d %s", nin[0], k, op.id, op.name.c_str()); }
      int upto = st ? k : ((g_checks & CK_MUST) && known ? firstbad : 0);
      for (int i = 0; i < upto; ++i) {
        Slot<D>&a = *o1[(size_t)i], &b = *o2[(size_t)i];
        memcpy((void*)a.p(), (const void*)&ap.p[i], sizeof(Poly)); memcpy((void*)b.p(), (const void*)&an.p[i], sizeof(Poly));
        if (ap.p[i].nverts > D::CAP || ap.p[i].nverts < 0 || an.p[i].nverts > D::CAP || an.p[i].nverts < 0) violate("bad-graph", "split half with %d/%d vertices, op %d", ap.p[i].nverts, an.p[i].nverts, op.id);
        a.refok = b.refok = rok[(size_t)i]; a.convex = b.convex = cvx[(size_t)i]; a.generic = b.generic = gen[(size_t)i]; a.isbox = b.isbox = false;
        if (W->refs) refs[(size_t)i].split(rp<D>(pl), a.ref, b.ref);
        done_live<D>(x, a, "positive half", h); done_live<D>(x, b, "negative half", h);
        side_check<D>(x, a, pl, 1, "positive half"); side_check<D>(x, b, pl, -1, "negative half");
        if (!st) { a.state = LIVE; b.state = LIVE; }
      }
    } else x.r.state = 0;
  }
  else if (f == "reduce" || f == "shift") {
    Slot<D>* s = live(I(0)); if (!s) { x.r.state = 0; return; }
    int order = (int)I(1); if (D::N == 4) order = 0; int nm = D::nmom(order);
    Arg<double> o((size_t)nm); for (int i = 0; i < nm; ++i) o.p[i] = W->scribble ? sentinel((size_t)i, W->gseed ^ (u64)op.id) : 1e99;
    if (undefined4<D>(x, s->p(), cost_reduce<D>(s->p()->nverts, nm), [&](Poly* q) { double m[1]; if (D::N == 4) D::reduce(q, m, 0); return D::N == 4 && !(m[0] - m[0] == 0); })) { x.r.state = 0; return; }
    { Prot<D> pr(*s, "polytope being measured"); if (!call(x, cost_reduce<D>(s->p()->nverts, nm), [&] { D::reduce(s->p(), o.p, order); })) return; }
    if (f == "shift") {
      if constexpr (D::N == 2) { r2d_rvec2 c = rv<D>(&op.dv[0]); if (!call(x, 4000.0 * nm * nm, [&] { r2d_shift_moments(o.p, order, c); })) return; }
      else if constexpr (D::N == 3) { r3d_rvec3 c = rv<D>(&op.dv[0]); if (!call(x, 4000.0 * nm * nm, [&] { r3d_shift_moments(o.p, order, c); })) return; }
      else { x.r.state = 0; return; }
    }
    for (int i = 0; i < nm; ++i) hd(h, o.p[i]);
    if (W->keepvals) W->outv[op.id].assign(o.p, o.p + nm);
    if (f == "reduce") { far_check<D>(x, s->p(), order, o.p, nm_slot(I(0))); measure_check<D>(x, *s, nm_slot(I(0))); }
    if ((g_checks & CK_REF) && W->refs && s->refok && !s->ref.overflow && D::N < 4 && s->ref.s.size() < (order > 7 ? 40u : 400u)) {
      Ref<D::N> r = s->ref;
      if (f == "shift") { ld m[D::N][D::N], t[D::N]; for (int i = 0; i < N; ++i) { t[i] = F((size_t)i); for (int j = 0; j < N; ++j) m[i][j] = i == j; } ld R0 = r.R; r.affine(m, t); r.R = std::max(r.R, R0 + fabsl(t[0]) + fabsl(t[1]) + (N > 2 ? fabsl(t[N - 1]) : 0)); }
      std::vector<ld> w; r.moments(order, w); auto deg = mom_degrees<D::N>(order);
      for (int i = 0; i < nm; ++i) { ld t = r.tol(deg[i]) * (1 + order); ld e = fabsl((ld)o.p[i] - w[(size_t)i]); sim.st.refchecks++; if (e == e) ratio("mom", (double)(e / t));
        if (!(e <= t)) violate("wrong-region", "moment %d of order %d is %.17g, the region has %.17Lg (tolerance %.2Lg), op %d %s", i, order, o.p[i], w[(size_t)i], t, op.id, op.name.c_str()); }
    }
  }
  else if (f == "xf") {
    Slot<D>* s = live(I(0)); if (!s) { x.r.state = 0; return; }
    int ty = (int)I(1), a = (int)I(2), b = (int)I(3);
    ld m[D::N][D::N], t[D::N]; for (int i = 0; i < N; ++i) { t[i] = 0; for (int j = 0; j < N; ++j) m[i][j] = i == j; }
    s->state = DEAD; double bud = 200.0 * (D::CAP + 64); bool persp = false;
    switch (ty) {
      case 0: { RV v = rv<D>(&op.dv[0]); if (!call(x, bud, [&] { D::translate(s->p(), v); })) return; for (int j = 0; j < N; ++j) t[j] = op.dv[(size_t)j]; break; }
      case 1: { double th = F(0); if (!call(x, bud, [&] { D::rotate(s->p(), th, a, b); })) return; int p, q; D::rotaxes(a, b, p, q); m[p][p] = cosl((ld)th); m[p][q] = -sinl((ld)th); m[q][p] = sinl((ld)th); m[q][q] = cosl((ld)th); break; }
      case 2: { RV v = rv<D>(&op.dv[0]); if (!call(x, bud, [&] { D::scale(s->p(), v); })) return; for (int j = 0; j < N; ++j) m[j][j] = D::N == 4 ? op.dv[(size_t)j] : op.dv[0]; break; }
      case 3: { double k = F(0); if (!call(x, bud, [&] { D::shear(s->p(), k, a, b); })) return; m[a][b] += k; break; }
      default: { for (int j = 0; j < N; ++j) if (op.dv[(size_t)(N * (N + 1) + j)] != 0) persp = true;
        if (persp) { Poly* q = s->p(); const double* bt = &op.dv[(size_t)(N * (N + 1))]; for (int v = 0; v < q->nverts; ++v) { double w = bt[N]; for (int j = 0; j < N; ++j) w += bt[j] * D::xyz(q->verts[v].pos)[j]; if (!(w > 0.4 && w < 2.5)) { s->state = LIVE; x.r.state = 0; return; } } sim.st.probes["perspective"]++; }
        Arg<double> mm(op.dv.data(), (size_t)((N + 1) * (N + 1))); mm.protect("transformation matrix"); if (!call(x, bud, [&] { D::affine(s->p(), mm.p); })) return;
        double w = op.dv[(size_t)((N + 1) * (N + 1) - 1)]; for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) m[i][j] = (ld)op.dv[(size_t)(i * (N + 1) + j)] / w; t[i] = (ld)op.dv[(size_t)(i * (N + 1) + N)] / w; } }
    }
    if (ty != 0 && !(ty == 2)) s->isbox = false;
    if (persp) { if (W->refs && s->refok) { if (!s->ref.projective(op.dv.data())) s->refok = false; else if (D::N == 4) for (auto& q : s->ref.s) q.sign = 1; } }
    else if (W->refs && s->refok) { s->ref.affine(m, t); if (D::N == 4) for (auto& q : s->ref.s) q.sign = 1; }
    done_live<D>(x, *s, nm_slot(I(0)), h);
  }
  else if (f == "good") {
    Slot<D>* s = live(I(0)); if (!s || s->p()->nverts > good_limit<D>()) { x.r.state = 0; return; }
    int g = 0; { Prot<D> pr(*s, "polytope being validated"); if (!call(x, cost_good<D>(s->p()->nverts), [&] { g = D::good(s->p()); })) return; }
    h.add((u64)g); good_check<D>(x, s->p(), g, nm_slot(I(0)));
  }
  else if (f == "remains") {   // iv: slot -- whatever was left behind in an object that was being written
    Slot<D>& s = W->slot<D>(op.task, I(0)); int n = s.p()->nverts; if (n < 0 || n > D::CAP || n > good_limit<D>()) { x.r.state = 0; return; }
    sim.st.probes[s.state == LIVE ? "validated_live" : "validated_remains"]++;
    int g = 0; { Prot<D> pr(s, "polytope being validated"); if (!call(x, cost_good<D>(n), [&] { g = D::good(s.p()); })) return; }
    h.add((u64)g); good_check<D>(x, s.p(), g, nm_slot(I(0)));
  }
  else if (f == "torn") {   // iv: dst, src, kind, seed -- a copy that was torn, mixed with older contents or damaged in storage
    Slot<D>* s = live(I(1)); if (!s || s->p()->nverts <= 0 || s->p()->nverts > good_limit<D>() || I(0) == I(1)) { x.r.state = 0; return; }
    Slot<D>& t = W->slot<D>(op.task, I(0)); if (t.state == EMPTY) fill_garbage(t.p(), sizeof(Poly), W->gseed ^ mix64((u64)op.id)); t.state = DEAD; Rng r(mix64((u64)I(3))); int n = s->p()->nverts; constexpr int NB = D::NB;
    Poly* p = t.p(); int kind = (int)I(2); size_t all = sizeof(p->verts[0]) * (size_t)n;
    if (kind == 0) { size_t cut = (size_t)r.below(all + 1); if (r.chance(0.7)) cut -= cut % sizeof(p->verts[0]); memcpy((void*)p->verts, (void*)s->p()->verts, cut); p->nverts = n; }          // torn write
    else {
      memcpy((void*)p, (void*)s->p(), sizeof(Poly));
      auto V = [&] { return (int)r.below((u64)n); }; auto K = [&] { return (int)r.below((u64)NB); };
      auto slotof = [&](int a, int b) { for (int k = 0; k < NB; ++k) if (p->verts[a].pnbrs[k] == b) return k; return 0; };
      int reps = r.chance(0.7) ? 1 : (int)r.range(2, 4);
      while (reps--) {
        int a = V(), k = K(), b = p->verts[a].pnbrs[k], c = V(), l = K(), d = p->verts[c].pnbrs[l];
        switch (kind) {
          case 1: p->verts[a].pnbrs[k] = r.chance(0.5) ? (int)r.range(-2, n + 2) : r.chance(0.5) ? (int)r.next() : r.chance(0.5) ? -1 : a; break;   // one entry lost
          case 2: p->verts[a].pnbrs[k] = d; p->verts[c].pnbrs[l] = b; break;                                                        // two entries exchanged: one-way edges, degrees as before
          case 3: p->verts[a].pnbrs[k] ^= 1 << r.below(r.chance(0.7) ? 6 : 32); break;                                              // bit flip
          case 4: p->nverts = (int)r.range(0, n); break;                                                                              // records at the end lost
          case 5: if (b >= 0 && b < n && d >= 0 && d < n) { int kb = slotof(b, a), ld_ = slotof(d, c); p->verts[a].pnbrs[k] = d; p->verts[d].pnbrs[ld_] = a; p->verts[c].pnbrs[l] = b; p->verts[b].pnbrs[kb] = c; } break;   // edges rejoined the other way
          case 6: { int m = n; Poly* q = p; if (2 * m <= D::CAP && 2 * m <= good_limit<D>()) { for (int v = 0; v < m; ++v) { q->verts[m + v] = q->verts[v]; for (int j = 0; j < NB; ++j) q->verts[m + v].pnbrs[j] += m; } q->nverts = 2 * m; n = 2 * m;     // two copies, joined by a pair of edges or not at all
              if (r.chance(0.5)) { static const int next[5] = {5, 5, 6, 2, 7}; kind = next[r.below(5)]; reps = (int)r.range(1, 3); break; }   // several objects in one: then something happens to one of them
              if (r.chance(0.7)) { int e = q->verts[m + c % m].pnbrs[l], u = m + c % m, kb = slotof(b, a); if (b < m && e >= m && e < n) { int le = slotof(e, u); q->verts[a].pnbrs[k] = u; q->verts[u].pnbrs[l] = a; q->verts[b].pnbrs[kb] = e; q->verts[e].pnbrs[le] = b; } } } reps = 0; break; }
          case 7: { int j = (k + 1) % NB; std::swap(p->verts[a].pnbrs[k], p->verts[a].pnbrs[j]); break; }                            // the same graph, listed in another order
          default: { std::swap(p->verts[a], p->verts[c]); break; }                                                                  // records exchanged
        }
        if (n <= 0 || p->nverts <= 0) break;
      }
    }
    t.refok = false; h.add((u64)valid_graph<D>(p));
  }
  else if (f == "print") {
    Slot<D>* s = live(I(0)); if (!s) { x.r.state = 0; return; }
    Prot<D> pr(*s, "polytope being printed"); if (!call(x, 2000.0 * (s->p()->nverts + 8), [&] { D::print(s->p()); })) return;
  }
  else if (f == "center") {
    Slot<D>* s = live(I(0)); if (!s) { x.r.state = 0; return; }
    if (sim.fpenv) { double m = 0; if constexpr (D::N == 2) r2d_reduce(s->p(), &m, 0); else if constexpr (D::N == 3) r3d_reduce(s->p(), &m, 0); if (!(m > 0)) { x.r.state = 0; return; } }   // the centre of nothing is undefined
    Prot<D> pr(*s, "polytope being measured");
    if constexpr (D::N == 2) { r2d_rvec2 c; if (!call(x, 2000.0 * (s->p()->nverts + 8), [&] { c = r2d_poly_center(s->p()); })) return; if (s->p()->nverts > 0) { for (double q : c.xy) hd(h, q); centre_check<D>(x, s->p(), c.xy); } }
    else if constexpr (D::N == 3) { r3d_rvec3 c; if (!call(x, 2000.0 * (s->p()->nverts + 8), [&] { c = r3d_poly_center(s->p()); })) return; if (s->p()->nverts > 0) { for (double q : c.xyz) hd(h, q); centre_check<D>(x, s->p(), c.xyz); } }
  }
  else if (f == "orient") {
    std::vector<RV> v; for (int k = 0; k <= N; ++k) v.push_back(rv<D>(&op.dv[(size_t)(k * N)]));
    Arg<RV> a(v.data(), v.size()); a.protect("vertex array"); double o = 0;
    if (!call(x, 200000, [&] { if constexpr (D::N == 2) o = r2d_orient(a.p[0], a.p[1], a.p[2]); else if constexpr (D::N == 3) o = r3d_orient(a.p); else o = rNd_orient(a.p); })) return;
    if (g_checks & CK_FACES) { ld w = simplex_measure<D::N>(op.dv), R = 0; for (size_t i = 0; i < op.dv.size(); ++i) R = std::max(R, fabsl((ld)op.dv[i] - op.dv[i % (size_t)N])); if (!(fabsl(o - w) <= 1e-14L * powl(R, N))) violate("wrong-measure", "signed measure of a simplex is %.17g, should be %.17Lg, op %d %s", o, w, op.id, op.name.c_str()); sim.st.refchecks++; }
    hd(h, o);
  }
  else if (f == "ibox") {
    Slot<D>* s = live(I(0)); if (!s || s->p()->nverts <= 0) { x.r.state = 0; return; }
    DV ib[2]; if (!ibox_of<D>(x, *s, ib, rv<D>(&op.dv[0]))) return;
    for (int k = 0; k < 2; ++k) for (int j = 0; j < N; ++j) h.add((u64)(long)D::ijk(ib[k])[j]);
  }
  else if (f == "clamp") {   // iv: slot, lo.., hi.. [, padding of the index box [, clamp box relative to it]]
    Slot<D>* s = live(I(0)); if (!s || s->p()->nverts <= 0) { x.r.state = 0; return; }
    DV ib[2], cb[2]; RV d = rv<D>(&op.dv[0]); if (!ibox_of<D>(x, *s, ib, d)) return;
    for (int j = 0; j < N; ++j) { D::ijk(cb[0])[j] = (int)I((size_t)(1 + j)); D::ijk(cb[1])[j] = (int)I((size_t)(1 + N + j)); }
    if (op.iv.size() > (size_t)(2 + 2 * N) && I((size_t)(2 + 2 * N))) for (int k = 0; k < 2; ++k) for (int j = 0; j < N; ++j) D::ijk(cb[k])[j] += D::ijk(ib[0])[j];   // the clamp box follows the object
    if (op.iv.size() > (size_t)(1 + 2 * N)) for (int j = 0; j < N; ++j) { D::ijk(ib[0])[j] -= (int)(I((size_t)(1 + 2 * N)) >> (4 * j) & 3); D::ijk(ib[1])[j] += (int)(I((size_t)(1 + 2 * N)) >> (4 * j + 2) & 3); }   // an index box wider than needed
    int st = 0; Arg<DV> ai(ib, 2); Arg<DV> ac(cb, 2); ac.protect("clamp box");
    s->state = DEAD; bool must = s->isbox && D::CAP >= (2 << D::N) && (D::CAP >= (4 << D::N) || !on_grid<D>(*s, d));
    if (!call(x, cost_clip<D>(D::CAP, 2 * N), [&] { st = D::clamp(s->p(), ai.p, ac.p, d); })) return;
    h.add((u64)(st != 0)); x.r.status = st != 0;
    if (!st) { if ((g_checks & CK_MUST) && must) violate("spurious-failure", "clamping a box fails although it fits, op %d %s", op.id, op.name.c_str()); capfail<D>(x, *s); return; }
    bool dj = false; for (int j = 0; j < N; ++j) if (D::ijk(ib[1])[j] <= D::ijk(cb[0])[j] || D::ijk(ib[0])[j] >= D::ijk(cb[1])[j]) dj = true;
    for (int k = 0; k < 2; ++k) for (int j = 0; j < N; ++j) { int got = D::ijk(ai.p[k])[j]; h.add((u64)(long)got);
      if (g_checks & (CK_CELLS | CK_IBOX)) { int want = dj ? 0 : k ? std::min(D::ijk(ib[1])[j], D::ijk(cb[1])[j]) : std::max(D::ijk(ib[0])[j], D::ijk(cb[0])[j]);
        if (got != want) violate("wrong-clamp", "clamped index box has %d instead of %d on axis %d, op %d %s", got, want, j, op.id, op.name.c_str()); } }
    if ((g_checks & (CK_CELLS | CK_IBOX)) && dj && s->p()->nverts > 0) violate("wrong-clamp", "polytope outside the clamp box comes back with %d vertices, op %d %s", s->p()->nverts, op.id, op.name.c_str());
    if (W->refs && s->refok) for (int j = 0; j < N; ++j) for (int k = 0; k < 2; ++k) { RefPlane<D::N> q; for (int i = 0; i < N; ++i) q.n[i] = 0; q.n[j] = k ? -1 : 1; q.d = (k ? 1 : -1) * (ld)D::ijk(cb[k])[j] * D::xyz(d)[j]; s->ref.clip(q); }
    s->isbox = false;   // faces cut by the clamp are only nominally flat
    done_live<D>(x, *s, nm_slot(I(0)), h);
  }
  else if (f == "vox") {   // iv: slot, order, pad, zero-grid flag; dv: d
    Slot<D>* s = live(I(0)); if (!s || s->p()->nverts <= 0) { x.r.state = 0; return; }
    DV ib[2]; RV d = rv<D>(&op.dv[0]); if (!ibox_of<D>(x, *s, ib, d)) return;
    int order = D::N == 4 ? 0 : (int)I(1); int pad = (int)I(2);
    for (int j = 0; j < N; ++j) { if (pad & (1 << j)) D::ijk(ib[0])[j] -= 1; if (pad & (16 << j)) D::ijk(ib[1])[j] += 1; }
    double cells = ncells<D>(ib); int nm = D::nmom(order);
    bool wide = op.iv.size() > 4 && I(4);
    if (cells <= 0 || (wide ? cells * nm > 400000 : cells > maxcells<D>() || cells * nm > 8000)) { x.r.state = 0; return; }
    size_t tot = (size_t)cells * (size_t)nm;
    Arg<double> g(tot); std::vector<double> before(tot); for (size_t i = 0; i < tot; ++i) g.p[i] = before[i] = I(3) ? 0.0 : sentinel(i, (u64)op.id);
    Arg<DV> ai(ib, 2); ai.protect("index box"); int st = 0;
    if (undefined4_vox<D>(x, s->p(), ai.p, tot, cost_vox<D>(s->p()->nverts, cells, nm), d, order)) { x.r.state = 0; return; }
    { Prot<D> pr(*s, "polytope being voxelized"); if (!call(x, cost_vox<D>(s->p()->nverts, cells, nm), [&] { st = D::vox(s->p(), ai.p, g.p, d, order); })) return; }
    h.add((u64)(st != 0)); x.r.status = st != 0;
    if (!st) { sim.st.capfails++; if ((g_checks & CK_MUST) && vox_must<D>(*s, d)) violate("spurious-failure", "voxelizing %d vertices fails although it fits, op %d %s", s->p()->nverts, op.id, op.name.c_str()); return; }
    for (size_t i = 0; i < tot; ++i) hd(h, g.p[i]);
    for (int k = 0; k < 2; ++k) for (int j = 0; j < N; ++j) h.add((u64)(long)D::ijk(ib[k])[j]);
    far_cells<D>(x, s->p(), D::ijk(ib[0]), D::ijk(ib[1]), D::xyz(d), order, g.p, before.data());
    if ((g_checks & CK_CELLS) && W->refs && s->refok && !s->ref.overflow && well<D>(s->p())) check_cells<D>(x, "grid", s->ref, D::ijk(ib[0]), D::ijk(ib[1]), D::xyz(d), order, g.p, before.data());
  }
  else if (f == "tile") {   // iv: slot, order, lo.., hi.., tile number, duplicate flag; dv: d
    Tile<D>* have = nullptr; for (auto& q : W->tiles<D>()) if (q.second.no == I((size_t)(2 + 2 * N)) && q.second.done) have = &q.second;
    if (have && !I((size_t)(3 + 2 * N))) { x.r.state = 0; return; }
    Slot<D>* s = live(I(0)); if (!s || s->p()->nverts <= 0) { x.r.state = 0; return; }
    RV d = rv<D>(&op.dv[0]); int order = D::N == 4 ? 0 : (int)I(1), nm = D::nmom(order); DV ib[2], cb[2];
    Arg<Poly> mine(s->p(), 1);
    if (!ibox_of<D>(x, *s, ib, d)) return;
    for (int j = 0; j < N; ++j) { D::ijk(cb[0])[j] = (int)I((size_t)(2 + j)); D::ijk(cb[1])[j] = (int)I((size_t)(2 + N + j)); }
    bool dj = false; for (int j = 0; j < N; ++j) if (D::ijk(ib[1])[j] <= D::ijk(cb[0])[j] || D::ijk(ib[0])[j] >= D::ijk(cb[1])[j]) dj = true;
    int st = 0; Arg<DV> ai(ib, 2); Arg<DV> ac(cb, 2);
    if (!call(x, cost_clip<D>(D::CAP, 2 * N), [&] { st = D::clamp(mine.p, ai.p, ac.p, d); })) return;
    if (!st) { x.r.status = 0; sim.st.capfails++; return; }
    Tile<D> t; t.order = order; t.empty = false;
    if ((g_checks & CK_CELLS) && dj && mine.p->nverts > 0) violate("wrong-clamp", "tile that misses the polytope is not empty (%d vertices), op %d", mine.p->nverts, op.id);
    double cells = ncells<D>(ai.p);
    if (mine.p->nverts <= 0 || cells <= 0) { t.empty = true; t.lo = cb[0]; t.hi = cb[0]; }
    else {
      for (int j = 0; j < N; ++j) if (D::ijk(ai.p[0])[j] < D::ijk(cb[0])[j] || D::ijk(ai.p[1])[j] > D::ijk(cb[1])[j]) violate("wrong-clamp", "clamped index box leaves its tile on axis %d, op %d", j, op.id);
      if (cells * nm > 60000) { x.r.state = 0; return; }
      Arg<double> g((size_t)cells * (size_t)nm); for (size_t i = 0; i < (size_t)cells * (size_t)nm; ++i) g.p[i] = 0;
      if (undefined4_vox<D>(x, mine.p, ai.p, g.n, cost_vox<D>(mine.p->nverts, cells, nm), d, order)) { x.r.state = 0; return; }
      if (!call(x, cost_vox<D>(mine.p->nverts, cells, nm), [&] { st = D::vox(mine.p, ai.p, g.p, d, order); })) return;
      if (!st) { x.r.status = 0; sim.st.capfails++; return; }
      t.lo = ai.p[0]; t.hi = ai.p[1]; t.v.assign(g.p, g.p + (size_t)cells * (size_t)nm);
    }
    for (int j = 0; j < N; ++j) { h.add((u64)(long)D::ijk(t.lo)[j]); h.add((u64)(long)D::ijk(t.hi)[j]); }
    for (double q : t.v) hd(h, q);
    t.done = true; t.dig = h.h; t.no = I((size_t)(2 + 2 * N)); sim.st.tiles++;
    have = nullptr; for (auto& q : W->tiles<D>()) if (q.second.no == t.no && q.second.done) have = &q.second;
    if (have && have->dig != t.dig) violate("wrong-tile", "tile %ld redone differs from the first delivery, op %d %s", t.no, op.id, op.name.c_str());
    if (have) sim.st.probes["duplicate_tiles"]++;
    W->tiles<D>()[op.id] = t;
  }
  else if (f == "assemble") {   // iv: slot, order, K, tiles; dv: d -- all tiles of [-K,K)^N put together
    Slot<D>* s = live(I(0)); if (!s || s->p()->nverts <= 0) { x.r.state = 0; return; }
    RV d = rv<D>(&op.dv[0]); int order = D::N == 4 ? 0 : (int)I(1), nm = D::nmom(order), K = (int)I(2); size_t tot = (size_t)nm; for (int j = 0; j < N; ++j) tot *= (size_t)(2 * K);
    std::map<long, Tile<D>*> byno; for (auto& q : W->tiles<D>()) if (q.second.done) byno[q.second.no] = &q.second;
    if ((long)byno.size() != I(3)) { x.r.state = 0; sim.st.probes["assemble_incomplete"]++; return; }
    std::vector<double> all(tot, 0.0); std::vector<char> hit(tot, 0);
    for (auto& q : byno) { Tile<D>& t = *q.second; if (t.empty) continue; size_t cells = t.v.size() / (size_t)nm;
      for (size_t c = 0; c < cells; ++c) { size_t r = c, at = 0; int ix[D::N]; for (int j = N - 1; j >= 0; --j) { int w = D::ijk(t.hi)[j] - D::ijk(t.lo)[j]; ix[j] = D::ijk(t.lo)[j] + (int)(r % (size_t)w); r /= (size_t)w; }
        bool in = true; for (int j = 0; j < N; ++j) { if (ix[j] < -K || ix[j] >= K) in = false; at = at * (size_t)(2 * K) + (size_t)(ix[j] + K); } if (!in) { x.r.state = 0; return; }
        for (int m = 0; m < nm; ++m) { if (hit[at * (size_t)nm + (size_t)m]++) violate("wrong-tile", "two tiles report the same cell, op %d", op.id); all[at * (size_t)nm + (size_t)m] = t.v[c * (size_t)nm + (size_t)m]; } } }
    int lo[D::N], hi[D::N]; for (int j = 0; j < N; ++j) { lo[j] = -K; hi[j] = K; }
    if (s->refok && !s->ref.overflow && well<D>(s->p())) check_cells<D>(x, "assembled tiles", s->ref, lo, hi, D::xyz(d), order, all.data(), nullptr);
    if (!well<D>(s->p())) return;
    DV ib[2]; if (!ibox_of<D>(x, *s, ib, d)) return;
    double cells = ncells<D>(ib); if (cells <= 0) return;
    Arg<double> g((size_t)cells * (size_t)nm); for (size_t i = 0; i < g.n; ++i) g.p[i] = 0; Arg<DV> ai(ib, 2); int st = 0;
    { Prot<D> pr(*s, "polytope being voxelized"); if (!call(x, cost_vox<D>(s->p()->nverts, cells, nm), [&] { st = D::vox(s->p(), ai.p, g.p, d, order); })) return; }
    if (!st) { sim.st.capfails++; x.r.status = 0; return; }
    auto deg = mom_degrees<D::N>(order); std::vector<double> whole(tot, 0.0);
    for (size_t c = 0; c < (size_t)cells; ++c) { size_t r = c, at = 0; int ix[D::N]; for (int j = N - 1; j >= 0; --j) { int w = D::ijk(ib[1])[j] - D::ijk(ib[0])[j]; ix[j] = D::ijk(ib[0])[j] + (int)(r % (size_t)w); r /= (size_t)w; }
      bool in = true; for (int j = 0; j < N; ++j) { if (ix[j] < -K || ix[j] >= K) in = false; at = at * (size_t)(2 * K) + (size_t)(ix[j] + K); } if (!in) { x.r.state = 0; return; }
      for (int m = 0; m < nm; ++m) whole[at * (size_t)nm + (size_t)m] = g.p[c * (size_t)nm + (size_t)m]; }
    for (size_t i = 0; i < tot; ++i) { ld t = 2 * cell_tol<D>(s->ref, deg[i % (size_t)nm], D::xyz(d), lo, hi); ld e = fabsl((ld)all[i] - (ld)whole[i]); sim.st.refchecks++;
      if (!(e <= t)) violate("wrong-tile", "cell value %zu is %.17g put together from tiles and %.17g at once, op %d %s", i, all[i], whole[i], op.id, op.name.c_str()); }
    std::vector<double> sum((size_t)nm, 0.0), ref((size_t)nm, 0.0); for (size_t i = 0; i < tot; ++i) sum[i % (size_t)nm] += all[i];
    Arg<double> mo((size_t)nm); quiet(x, cost_reduce<D>(s->p()->nverts, nm), [&] { D::reduce(s->p(), mo.p, order); });
    for (int m = 0; m < nm; ++m) { ld t = (D::N == 4 ? moment_tol<D>(*s, 0) : 0) + cell_tol<D>(s->ref, deg[(size_t)m], D::xyz(d), lo, hi) * 30; ld e = fabsl((ld)sum[(size_t)m] - mo.p[m]); if (e == e) ratio("tsum", (double)(e / t)); if (!(e <= t)) violate("wrong-tile", "moment %d of all tiles sums to %.17g, the polytope has %.17g, op %d %s", m, sum[(size_t)m], mo.p[m], op.id, op.name.c_str()); }
    sim.st.probes["assembled"]++;
  }
  else if (f == "grid") {   // iv: grid, order, lo.., hi..; dv: d  -- new persistent grid with contents of its own
    Grid<D>& g = W->grids<D>()[World::key(op.task, I(0))];
    if (g.n) pool.put(g.g);
    g.order = D::N == 4 ? 0 : (int)I(1); g.d = rv<D>(&op.dv[0]); size_t c = 1;
    for (int j = 0; j < N; ++j) { D::ijk(g.lo)[j] = (int)I((size_t)(2 + j)); D::ijk(g.hi)[j] = (int)I((size_t)(2 + N + j)); c *= (size_t)(D::ijk(g.hi)[j] - D::ijk(g.lo)[j]); }
    g.n = c * (size_t)D::nmom(g.order); g.g = pool.get(g.n * sizeof(double), 8); g.base.resize(g.n); g.want.assign(g.n, 0); g.ok = true; g.scale = 0; g.tol = 0; g.state = LIVE; g.deps = 0;
    bool z = I((size_t)(2 + 2 * N)); for (size_t i = 0; i < g.n; ++i) g.p()[i] = g.base[i] = z ? 0.0 : sentinel(i, (u64)op.id * 17) * 0x1p-6;
  }
  else if (f == "dep") {   // iv: slot, grid
    Slot<D>* s = live(I(0)); Grid<D>& g = W->grids<D>()[World::key(op.task, I(1))];
    if (!s || s->p()->nverts <= 0 || g.state != LIVE) { x.r.state = 0; if (W->taint && !s) g.state = DEAD; return; }
    Arg<Poly> mine(s->p(), 1); DV ib[2];
    if (!ibox_of<D>(x, *s, ib, g.d)) return;
    int st = 0; DV cb[2] = {g.lo, g.hi}; Arg<DV> ai(ib, 2); Arg<DV> ac(cb, 2);
    bool dj = false; for (int j = 0; j < N; ++j) if (D::ijk(ib[1])[j] <= D::ijk(cb[0])[j] || D::ijk(ib[0])[j] >= D::ijk(cb[1])[j]) dj = true;
    if (!call(x, cost_clip<D>(D::CAP, 2 * N), [&] { st = D::clamp(mine.p, ai.p, ac.p, g.d); })) return;
    if (!st) { x.r.status = 0; sim.st.capfails++; if (W->taint) g.state = DEAD; return; }   // the grid has not been touched
    g.state = DEAD; int nm = D::nmom(g.order);
    bool wl = well<D>(s->p()) && well<D>(mine.p);
    Arg<DV> whole(cb, 2); whole.protect("index box");
    double cells = (double)g.n / nm;
    if (undefined4_vox<D>(x, mine.p, whole.p, g.n, cost_vox<D>(mine.p->nverts + 8, cells, nm), g.d, g.order)) { x.r.state = 0; g.state = LIVE; return; }
    if (!call(x, cost_vox<D>(mine.p->nverts + 8, cells, nm), [&] { st = D::vox(mine.p, whole.p, g.p(), g.d, g.order); })) return;
    h.add((u64)(st != 0)); x.r.status = st != 0;
    if (!st) { sim.st.capfails++; return; }
    g.state = LIVE; g.deps++;
    (void)dj;
    if (W->refs && s->refok && !s->ref.overflow && wl) {
      Ref<D::N> r = s->ref;
      for (int j = 0; j < N; ++j) for (int k = 0; k < 2; ++k) { RefPlane<D::N> q; for (int i = 0; i < N; ++i) q.n[i] = 0; q.n[j] = k ? -1 : 1; q.d = (k ? 1 : -1) * (ld)D::ijk(cb[k])[j] * D::xyz(g.d)[j]; r.clip(q); }
      std::vector<ld> w; if (!want_cells<D>(r, D::ijk(g.lo), D::ijk(g.hi), D::xyz(g.d), g.order, w)) g.ok = false;
      else { auto deg = mom_degrees<D::N>(g.order); (void)deg; for (size_t i = 0; i < g.n; ++i) g.want[i] += w[i];
        g.tol += cell_tol<D>(s->ref, 0, D::xyz(g.d), D::ijk(g.lo), D::ijk(g.hi)); g.scale = std::max(g.scale, s->ref.R); }
    } else g.ok = false;
    for (size_t i = 0; i < g.n; ++i) hd(h, g.p()[i]);
  }
  else if (f == "gcheck") {   // iv: grid
    Grid<D>& g = W->grids<D>()[World::key(op.task, I(0))];
    if (g.state != LIVE) { x.r.state = 0; return; }
    for (size_t i = 0; i < g.n; ++i) hd(h, g.p()[i]);
    if (W->keepvals) W->outv[op.id].assign(g.p(), g.p() + g.n);
    if (g.ok && (g_checks & CK_CELLS)) {
      int nm = D::nmom(g.order); auto deg = mom_degrees<D::N>(g.order);
      ld r = g.scale; for (int j = 0; j < N; ++j) r = std::max(r, (ld)std::max(std::abs(D::ijk(g.lo)[j]), std::abs(D::ijk(g.hi)[j])) * D::xyz(g.d)[j]);
      for (size_t i = 0; i < g.n; ++i) {
        ld e = fabsl((ld)g.p()[i] - g.base[i] - g.want[i]); ld t = g.tol * Ref<2>::powi(std::max(r, REFUNIT), deg[i % nm]) + 4e-16L * (g.deps + 1) * (fabsl((ld)g.base[i]) + fabsl(g.want[i]));
        sim.st.refchecks++; if (e == e) ratio("grid", (double)(e / t));
        if (!(e <= t)) violate("wrong-deposit", "after %d deposits grid value %zu is %.17g, it started at %.17g and %.17Lg should have been added (tolerance %.2Lg), op %d %s", g.deps, i, g.p()[i], g.base[i], g.want[i], t, op.id, op.name.c_str());
      }
    }
  }
  else fatal("unknown operation %s", op.name.c_str());
  x.r.dig = h.h;
}

// ---------------------------------------------------------------- operations of one dimension
struct ShapeArgs3 {
  std::vector<r3d_rvec3> v; std::vector<int> flat, cnt; std::vector<size_t> off;
  explicit ShapeArgs3(const Shape3& s) { for (auto& q : s.v) { r3d_rvec3 r; for (int j = 0; j < 3; ++j) r.xyz[j] = q[(size_t)j]; v.push_back(r); }
    for (auto& q : s.f) { off.push_back(flat.size()); cnt.push_back((int)q.size()); for (int i : q) flat.push_back(i); } }
};
static bool op_poly2(Ctx& x) {
  const Op& op = x.op; Slot<D2>& s = W->slot<D2>(op.task, op.iv[0]); bool cv;
  auto p = make_shape2((int)op.iv[1], (int)op.iv[2], (u64)op.iv[3], cv);
  std::vector<r2d_rvec2> v; for (auto& q : p) { r2d_rvec2 r; r.x = q[0]; r.y = q[1]; v.push_back(r); }
  if (W->scribble) fill_garbage(s.p(), sizeof(r2d_poly), W->gseed ^ mix64((u64)op.id * 3 + 1));
  Arg<r2d_rvec2> a(v.data(), v.size()); a.protect("vertex array");
  s.state = DEAD; int st = 0; int n = (int)v.size(); Hash h; h.adds(op.name);
  if (!call(x, 2000.0 * (n + 64) + 100.0 * D2::CAP, [&] { st = status([&] { return r2d_init_poly(s.p(), a.p, n); }); })) return false;
  h.add((u64)(st != 0)); x.r.status = st != 0;
  if (!st) { if ((g_checks & CK_MUST) && n <= D2::CAP) violate("spurious-failure", "initialising a polygon of %d vertices fails although %d fit, op %d", n, (int)D2::CAP, op.id); capfail<D2>(x, s); }
  else {
    if ((g_checks & CK_GRAPH) && n > D2::CAP) violate("silent-overflow", "initialising a polygon of %d vertices succeeds although only %d fit, op %d", n, (int)D2::CAP, op.id);
    s.convex = cv; s.isbox = false; s.generic = true; s.refok = W->refs; if (W->refs) poly2_ref(p, s.ref); done_live<D2>(x, s, nm_slot(op.iv[0]), h); }
  x.r.dig = h.h; return true;
}
static bool init_shape3(Ctx& x, Slot<D3>& s, const Shape3& sh, int& st) {
  ShapeArgs3 g(sh);
  Arg<r3d_rvec3> av(g.v.data(), g.v.size()); Arg<int> fl(g.flat.data(), g.flat.size()); Arg<int> cn(g.cnt.data(), g.cnt.size());
  std::vector<int*> ptr; for (size_t o : g.off) ptr.push_back(fl.p + o);
  Arg<int*> fp(ptr.data(), ptr.size());
  av.protect("vertex array"); fl.protect("face index array"); cn.protect("face size array"); fp.protect("face table");
  double t = (double)g.flat.size() + 16;
  return call(x, 3000.0 * t * t + 400.0 * D3::CAP, [&] { st = status([&] { return r3d_init_poly(s.p(), av.p, (int)g.v.size(), fp.p, cn.p, (int)g.cnt.size()); }); });
}
static bool op_poly3(Ctx& x) {
  const Op& op = x.op; Slot<D3>& s = W->slot<D3>(op.task, op.iv[0]);
  Shape3 sh = make_shape3((int)op.iv[1], (int)op.iv[2], (u64)op.iv[3]);
  if (W->scribble) fill_garbage(s.p(), sizeof(r3d_poly), W->gseed ^ mix64((u64)op.id * 3 + 1));
  s.state = DEAD; int st = 0; Hash h; h.adds(op.name);
  if (!init_shape3(x, s, sh, st)) return false;
  h.add((u64)(st != 0)); x.r.status = st != 0;
  if (!st) { if ((g_checks & CK_MUST) && sh.need() <= D3::CAP) violate("spurious-failure", "initialising a polyhedron that needs %d vertices fails although %d fit, op %d", sh.need(), (int)D3::CAP, op.id); capfail<D3>(x, s); }
  else {
    if ((g_checks & CK_GRAPH) && (int)sh.v.size() > D3::CAP) violate("silent-overflow", "initialising %zu vertices succeeds although only %d fit, op %d", sh.v.size(), (int)D3::CAP, op.id);
    s.convex = sh.convex; s.isbox = false; s.generic = sh.need() == (int)sh.v.size(); s.refok = W->refs; if (W->refs) shape_ref(sh, s.ref); done_live<D3>(x, s, nm_slot(op.iv[0]), h); }
  x.r.dig = h.h; return true;
}
// planes got from a helper against the corners of the shape: unit normals, through the face, everything else inside
template <class D> static void faces_check(Ctx& x, const std::vector<typename D::Plane>& pl, const std::vector<std::array<ld, D::N>>& v, const std::vector<std::vector<int>>& f, bool convex, bool any) {
  if (!(g_checks & CK_FACES)) return;
  const int N = D::N; ld R = 0; for (auto& q : v) for (ld z : q) R = std::max(R, fabsl(z));
  std::vector<char> used(pl.size(), 0);
  for (size_t i = 0; i < f.size(); ++i) {
    // boxes and simplices: faces in any order; boundaries: in the order given
    long at = any ? -1 : (long)i; ld best = 1e300L;
    for (size_t k = 0; any && k < pl.size(); ++k) { if (used[k]) continue; ld w = 0; auto& q = const_cast<typename D::Plane&>(pl[k]); for (int c : f[i]) { ld e = q.d; for (int j = 0; j < N; ++j) e += (ld)D::xyz(q.n)[j] * v[(size_t)c][(size_t)j]; w = std::max(w, fabsl(e)); } if (w < best) { best = w; at = (long)k; } }
    if (at < 0) at = (long)i;
    used[(size_t)at] = 1; auto& q = const_cast<typename D::Plane&>(pl[(size_t)at]); ld n2 = 0; for (int j = 0; j < N; ++j) n2 += (ld)D::xyz(q.n)[j] * D::xyz(q.n)[j];
    if (!(fabsl(sqrtl(n2) - 1) <= 1e-12L)) violate("wrong-face", "normal of face %zu has length %.15Lg, op %d %s", i, sqrtl(n2), x.op.id, x.op.name.c_str());
    std::set<int> on(f[i].begin(), f[i].end()); ld tol = 1e-9L * R + 1e-12L * REFUNIT; sim.st.refchecks++;
    for (size_t c = 0; c < v.size(); ++c) {
      ld e = q.d; for (int j = 0; j < N; ++j) e += (ld)D::xyz(q.n)[j] * v[c][(size_t)j];
      bool in = on.count((int)c) > 0;
      if (in ? !(fabsl(e) <= tol) : convex && !(e >= -tol)) violate("wrong-face", "corner %zu lies %.9Lg %s face %zu, op %d %s", c, fabsl(e), in ? "off" : "outside", i, x.op.id, x.op.name.c_str());
    }
  }
}
template <int N> static void corners_of(const std::vector<double>& dv, bool box, std::vector<std::array<ld, N>>& v, std::vector<std::vector<int>>& f) {
  if (box) { for (int c = 0; c < (1 << N); ++c) { std::array<ld, N> q; for (int j = 0; j < N; ++j) q[(size_t)j] = dv[(size_t)((c >> j & 1) * N + j)]; v.push_back(q); }
    for (int j = 0; j < N; ++j) for (int k = 0; k < 2; ++k) { std::vector<int> q; for (int c = 0; c < (1 << N); ++c) if ((c >> j & 1) == k) q.push_back(c); f.push_back(q); } }
  else { for (int i = 0; i <= N; ++i) { std::array<ld, N> q; for (int j = 0; j < N; ++j) q[(size_t)j] = dv[(size_t)(i * N + j)]; v.push_back(q); std::vector<int> g; for (int k = 0; k <= N; ++k) if (k != i) g.push_back(k); f.push_back(g); } }
}
// face helpers: iv: kind (0 box, 1 simplex / polygon, 2 boundary), [shape args]; with a slot the result clips it
static bool op_faces(Ctx& x, bool two) {
  const Op& op = x.op; Hash h; h.adds(op.name);
  auto chk2 = [&](r2d_plane* q, int n, bool box) { std::vector<std::array<ld, 2>> v; std::vector<std::vector<int>> f; corners_of<2>(op.dv, box, v, f); faces_check<D2>(x, {q, q + n}, v, f, true, true); };
  auto chk3 = [&](r3d_plane* q, int n, bool box) { std::vector<std::array<ld, 3>> v; std::vector<std::vector<int>> f; corners_of<3>(op.dv, box, v, f); if (box || fabsl(simplex_measure<3>(op.dv)) > 0.01L * powl(REFUNIT, 3)) faces_check<D3>(x, {q, q + n}, v, f, true, true); };
  if (two) {
    if (op.iv[0] == 0) { std::vector<r2d_rvec2> v{rv<D2>(&op.dv[0]), rv<D2>(&op.dv[2])}; Arg<r2d_rvec2> a(v.data(), 2); a.protect("bounds array"); Arg<r2d_plane> o(4); if (!call(x, 20000, [&] { r2d_box_faces_from_verts(o.p, a.p); })) return false; for (int i = 0; i < 4; ++i) { hd(h, o.p[i].n.x); hd(h, o.p[i].n.y); hd(h, o.p[i].d); } chk2(o.p, 4, true); }
    else { bool cv; auto p = make_shape2((int)op.iv[1], (int)op.iv[2], (u64)op.iv[3], cv); if (op.iv.size() > 4 && op.iv[4]) { size_t k = (size_t)op.iv[4] % p.size(); p[k] = p[(k + 1) % p.size()]; }
      std::vector<r2d_rvec2> v; for (auto& q : p) { r2d_rvec2 r; r.x = q[0]; r.y = q[1]; v.push_back(r); }
      Arg<r2d_rvec2> a(v.data(), v.size()); a.protect("vertex array"); Arg<r2d_plane> o(v.size()); if (!call(x, 4000.0 * (double)v.size() + 20000, [&] { r2d_poly_faces_from_verts(o.p, a.p, (int)v.size()); })) return false; for (size_t i = 0; i < v.size(); ++i) { hd(h, o.p[i].n.x); hd(h, o.p[i].n.y); hd(h, o.p[i].d); }
      if (cv && !(op.iv.size() > 4 && op.iv[4])) { std::vector<std::array<ld, 2>> w; std::vector<std::vector<int>> fs; for (size_t i = 0; i < p.size(); ++i) { w.push_back({p[i][0], p[i][1]}); fs.push_back({(int)i, (int)((i + 1) % p.size())}); } faces_check<D2>(x, {o.p, o.p + v.size()}, w, fs, true, true); } }
  } else {
    auto put = [&](r3d_plane* q, int n) { for (int i = 0; i < n; ++i) { for (double z : q[i].n.xyz) hd(h, z); hd(h, q[i].d); } };
    if (op.iv[0] == 0) { std::vector<r3d_rvec3> v{rv<D3>(&op.dv[0]), rv<D3>(&op.dv[3])}; Arg<r3d_rvec3> a(v.data(), 2); a.protect("bounds array"); Arg<r3d_plane> o(6); if (!call(x, 20000, [&] { r3d_box_faces_from_verts(o.p, a.p); })) return false; put(o.p, 6); chk3(o.p, 6, true); }
    else if (op.iv[0] == 1) { std::vector<r3d_rvec3> v; for (size_t k = 0; k < 4; ++k) v.push_back(rv<D3>(&op.dv[3 * k])); Arg<r3d_rvec3> a(v.data(), 4); a.protect("vertex array"); Arg<r3d_plane> o(4); if (!call(x, 20000, [&] { r3d_tet_faces_from_verts(o.p, a.p); })) return false; put(o.p, 4); chk3(o.p, 4, false); }
    else { Shape3 sh = make_shape3((int)op.iv[1], (int)op.iv[2], (u64)op.iv[3]); if (op.iv.size() > 4 && op.iv[4]) { auto& fc = sh.f[(size_t)op.iv[4] % sh.f.size()]; for (size_t i = 1; i < fc.size(); ++i) sh.v[(size_t)fc[i]] = sh.v[(size_t)fc[0]]; }   // a face shrunk to a point
      ShapeArgs3 g(sh);
      Arg<r3d_rvec3> av(g.v.data(), g.v.size()); Arg<int> fl(g.flat.data(), g.flat.size()); Arg<int> cn(g.cnt.data(), g.cnt.size()); std::vector<int*> ptr; for (size_t o : g.off) ptr.push_back(fl.p + o); Arg<int*> fp(ptr.data(), ptr.size());
      av.protect("vertex array"); fl.protect("face index array"); cn.protect("face size array"); fp.protect("face table"); Arg<r3d_plane> o(g.cnt.size());
      if (!call(x, 4000.0 * (double)g.flat.size() + 20000, [&] { r3d_poly_faces_from_verts(o.p, av.p, (int)g.v.size(), fp.p, cn.p, (int)g.cnt.size()); })) return false; put(o.p, (int)g.cnt.size());
      if (sh.convex && !(op.iv.size() > 4 && op.iv[4])) { std::vector<std::array<ld, 3>> w; for (auto& q : sh.v) w.push_back({q[0], q[1], q[2]}); faces_check<D3>(x, {o.p, o.p + g.cnt.size()}, w, sh.f, true, true); } }
  }
  x.r.dig = h.h; return true;
}
// clip an object against the faces of a box or simplex obtained from the helpers
// the same faces worked out from the corners, for the reference
template <int N> static std::vector<RefPlane<N>> exact_faces(const std::vector<double>& v, bool box) {
  std::vector<RefPlane<N>> out;
  if (box) { for (int j = 0; j < N; ++j) for (int k = 0; k < 2; ++k) { RefPlane<N> q; for (int i = 0; i < N; ++i) q.n[i] = 0; q.n[j] = k ? -1 : 1; q.d = k ? (ld)v[(size_t)(N + j)] : -(ld)v[(size_t)j]; out.push_back(q); } return out; }
  for (int f = 0; f <= N; ++f) {
    std::vector<int> c; for (int i = 0; i <= N; ++i) if (i != f) c.push_back(i);
    auto P = [&](int i, int j) { return (ld)v[(size_t)(i * N + j)]; };
    RefPlane<N> q; if constexpr (N == 2) { q.n[0] = -(P(c[1], 1) - P(c[0], 1)); q.n[1] = P(c[1], 0) - P(c[0], 0); }
    else { ld a[3], b[3]; for (int j = 0; j < 3; ++j) { a[j] = P(c[1], j) - P(c[0], j); b[j] = P(c[2], j) - P(c[0], j); } for (int j = 0; j < 3; ++j) q.n[j] = a[(j + 1) % 3] * b[(j + 2) % 3] - a[(j + 2) % 3] * b[(j + 1) % 3]; }
    ld l = 0; for (int j = 0; j < N; ++j) l += q.n[j] * q.n[j]; l = sqrtl(l); q.d = 0; for (int j = 0; j < N; ++j) { q.n[j] /= l; q.d -= q.n[j] * P(c[0], j); }
    ld s = q.d; for (int j = 0; j < N; ++j) s += q.n[j] * P(f, j); if (s < 0) { for (int j = 0; j < N; ++j) q.n[j] = -q.n[j]; q.d = -q.d; }
    out.push_back(q);
  }
  return out;
}
// planes of a convex shape from its corners, the corners of a face taken far apart
template <int N> static std::vector<RefPlane<N>> shape_planes(const std::vector<std::array<ld, N>>& v, const std::vector<std::vector<int>>& f) {
  std::vector<RefPlane<N>> out; std::array<ld, N> ce; for (int j = 0; j < N; ++j) { ce[(size_t)j] = 0; for (auto& q : v) ce[(size_t)j] += q[(size_t)j] / v.size(); }
  for (auto& c : f) {
    RefPlane<N> q; auto& A = v[(size_t)c[0]];
    if constexpr (N == 2) { auto& B = v[(size_t)c[1]]; q.n[0] = A[1] - B[1]; q.n[1] = B[0] - A[0]; }
    else { for (int j = 0; j < 3; ++j) q.n[j] = 0; for (size_t i = 1; i + 1 < c.size(); ++i) { auto &B = v[(size_t)c[i]], &C = v[(size_t)c[i + 1]]; for (int j = 0; j < 3; ++j) { int a = (j + 1) % 3, b = (j + 2) % 3; q.n[j] += (B[a] - A[a]) * (C[b] - A[b]) - (B[b] - A[b]) * (C[a] - A[a]); } } }
    ld l = 0; for (int j = 0; j < N; ++j) l += q.n[j] * q.n[j]; l = sqrtl(l); q.d = 0; for (int j = 0; j < N; ++j) q.n[j] /= l;
    for (int i : c) for (int j = 0; j < N; ++j) q.d -= q.n[j] * v[(size_t)i][(size_t)j] / c.size();
    ld e = q.d; for (int j = 0; j < N; ++j) e += q.n[j] * ce[(size_t)j]; if (e < 0) { for (int j = 0; j < N; ++j) q.n[j] = -q.n[j]; q.d = -q.d; }
    out.push_back(q);
  }
  return out;
}
// iv: slot, kind (0 box, 1 simplex, 2 a convex shape), which faces (0: all, else a bit mask), shape arguments, hold back
template <class P, class R> static void some_faces(long mask, std::vector<P>& pl, std::vector<R>& ex) {
  if (!mask) return;
  std::vector<P> a; std::vector<R> b; for (size_t i = 0; i < pl.size(); ++i) if (mask >> (i % 20) & 1) { a.push_back(pl[i]); b.push_back(ex[i]); }
  pl = a; ex = b;
}
// the reference's planes in the order of the helper's
template <class D> static void match_planes(const std::vector<typename D::Plane>& pl, std::vector<RefPlane<D::N>>& ex) {
  std::vector<RefPlane<D::N>> out; std::vector<char> used(ex.size(), 0);
  for (auto q : pl) { size_t at = 0; ld best = 1e300L; for (size_t k = 0; k < ex.size(); ++k) { if (used[k]) continue; ld e = fabsl(ex[k].d - q.d) / REFUNIT; for (int j = 0; j < D::N; ++j) e += fabsl(ex[k].n[j] - (ld)D::xyz(q.n)[j]); if (!(e >= best)) { best = e; at = k; } } used[at] = 1; out.push_back(ex[at]); }
  ex = out;
}
static bool op_clipf2(Ctx& x) {
  const Op& op = x.op; Slot<D2>& s = W->slot<D2>(op.task, op.iv[0]); if (s.state != LIVE) { x.r.state = 0; return true; }
  std::vector<r2d_rvec2> v; for (size_t k = 0; 2 * k + 2 <= op.dv.size(); ++k) v.push_back(rv<D2>(&op.dv[2 * k]));
  std::vector<std::array<double, 2>> sp; if (op.iv[1] == 2) { bool cv; sp = make_shape2(0, (int)op.iv[4], (u64)op.iv[5], cv); for (auto& q : sp) { r2d_rvec2 r; r.x = q[0]; r.y = q[1]; v.push_back(r); } }
  Hash h; h.adds(op.name); std::vector<r2d_plane> pl;
  { Arg<r2d_rvec2> a(v.data(), v.size()); a.protect("vertex array"); size_t n = op.iv[1] == 0 ? 4 : v.size(); Arg<r2d_plane> o(n); if (!call(x, 40000 + 4000.0 * (double)n, [&] { if (op.iv[1] == 0) r2d_box_faces_from_verts(o.p, a.p); else r2d_poly_faces_from_verts(o.p, a.p, (int)v.size()); })) return false; pl.assign(o.p, o.p + n); }
  std::vector<std::array<ld, 2>> cs; std::vector<std::vector<int>> cf; std::vector<RefPlane<2>> ex;
  if (op.iv[1] == 2) { for (size_t i = 0; i < sp.size(); ++i) { cs.push_back({sp[i][0], sp[i][1]}); cf.push_back({(int)i, (int)((i + 1) % sp.size())}); } ex = shape_planes<2>(cs, cf); }
  else { corners_of<2>(op.dv, op.iv[1] == 0, cs, cf); ex = exact_faces<2>(op.dv, op.iv[1] == 0); }
  faces_check<D2>(x, pl, cs, cf, true, true);
  if (op.iv.size() > 2) { match_planes<D2>(pl, ex); some_faces(op.iv[2], pl, ex); }
  auto key = std::make_pair(op.task, op.iv[0]); auto& pe = W->pend2[key];   // requests may be put together
  if (op.iv.size() > 6 && op.iv[6]) { pe.first.insert(pe.first.end(), pl.begin(), pl.end()); pe.second.insert(pe.second.end(), ex.begin(), ex.end()); for (auto& q : pl) hd(h, q.d); x.r.dig = h.h; return true; }
  if (!pe.first.empty()) { pl.insert(pl.begin(), pe.first.begin(), pe.first.end()); ex.insert(ex.begin(), pe.second.begin(), pe.second.end()); }
  if (!do_clip<D2>(x, s, op.iv[0], pl, h, &ex)) return false;
  W->pend2[key].first.clear(); W->pend2[key].second.clear();
  x.r.dig = h.h; return true;
}
static bool op_clipf3(Ctx& x) {
  const Op& op = x.op; Slot<D3>& s = W->slot<D3>(op.task, op.iv[0]); if (s.state != LIVE) { x.r.state = 0; return true; }
  std::vector<r3d_rvec3> v; for (size_t k = 0; 3 * k + 3 <= op.dv.size(); ++k) v.push_back(rv<D3>(&op.dv[3 * k]));
  Hash h; h.adds(op.name); std::vector<r3d_plane> pl; std::vector<std::array<ld, 3>> cs; std::vector<std::vector<int>> cf; std::vector<RefPlane<3>> ex;
  if (op.iv[1] == 2) {
    Shape3 sh = make_shape3((int)op.iv[3], (int)op.iv[4], (u64)op.iv[5]); if (!sh.convex) { x.r.state = 0; return true; }
    ShapeArgs3 g(sh); Arg<r3d_rvec3> av(g.v.data(), g.v.size()); Arg<int> fl(g.flat.data(), g.flat.size()); Arg<int> cn(g.cnt.data(), g.cnt.size()); std::vector<int*> ptr; for (size_t o : g.off) ptr.push_back(fl.p + o); Arg<int*> fp(ptr.data(), ptr.size());
    av.protect("vertex array"); fl.protect("face index array"); cn.protect("face size array"); fp.protect("face table"); Arg<r3d_plane> o(g.cnt.size());
    if (!call(x, 4000.0 * (double)g.flat.size() + 20000, [&] { r3d_poly_faces_from_verts(o.p, av.p, (int)g.v.size(), fp.p, cn.p, (int)g.cnt.size()); })) return false;
    pl.assign(o.p, o.p + g.cnt.size()); for (auto& q : sh.v) cs.push_back({q[0], q[1], q[2]}); cf = sh.f; ex = shape_planes<3>(cs, cf);
  } else {
    Arg<r3d_rvec3> a(v.data(), v.size()); a.protect("vertex array"); size_t n = op.iv[1] == 0 ? 6 : 4; Arg<r3d_plane> o(n); if (!call(x, 40000, [&] { if (op.iv[1] == 0) r3d_box_faces_from_verts(o.p, a.p); else r3d_tet_faces_from_verts(o.p, a.p); })) return false; pl.assign(o.p, o.p + n);
    corners_of<3>(op.dv, op.iv[1] == 0, cs, cf); ex = exact_faces<3>(op.dv, op.iv[1] == 0);
  }
  faces_check<D3>(x, pl, cs, cf, true, true);
  if (op.iv.size() > 2) { match_planes<D3>(pl, ex); some_faces(op.iv[2], pl, ex); }
  auto key = std::make_pair(op.task, op.iv[0]); auto& pe = W->pend3[key];   // requests may be put together
  if (op.iv.size() > 6 && op.iv[6]) { pe.first.insert(pe.first.end(), pl.begin(), pl.end()); pe.second.insert(pe.second.end(), ex.begin(), ex.end()); for (auto& q : pl) hd(h, q.d); x.r.dig = h.h; return true; }
  if (!pe.first.empty()) { pl.insert(pl.begin(), pe.first.begin(), pe.first.end()); ex.insert(ex.begin(), pe.second.begin(), pe.second.end()); }
  if (!do_clip<D3>(x, s, op.iv[0], pl, h, &ex)) return false;
  W->pend3[key].first.clear(); W->pend3[key].second.clear();
  x.r.dig = h.h; return true;
}

// ---------------------------------------------------------------- boundary representations
static int components(r3d_poly* p) {
  int n = p->nverts, c = 0; std::vector<char> seen((size_t)std::max(0, n), 0);
  for (int v = 0; v < n; ++v) if (!seen[(size_t)v]) { ++c; std::vector<int> st{v}; while (!st.empty()) { int q = st.back(); st.pop_back(); if (seen[(size_t)q]) continue; seen[(size_t)q] = 1; for (int k : p->verts[q].pnbrs) if (k >= 0 && k < n) st.push_back(k); } }
  return c;
}
static void hash_brep(Hash& h, r3d_brep* b, int n) {
  h.add((u64)n);
  for (int c = 0; c < n; ++c) { h.add((u64)b[c].numvertices); for (int v = 0; v < b[c].numvertices; ++v) for (double q : b[c].vertices[v].xyz) hd(h, q);
    h.add((u64)b[c].numfaces); for (int f = 0; f < b[c].numfaces; ++f) { h.add((u64)b[c].numvertsperface[f]); for (int i = 0; i < b[c].numvertsperface[f]; ++i) h.add((u64)b[c].faceinds[f][i]); } }
}
// number of faces of the vertex graph with at least three distinct positions along them, and the faces' count in all
static bool coincident(r3d_poly* p) {
  std::set<std::array<double, 3>> s; for (int v = 0; v < p->nverts; ++v) { auto& q = p->verts[v].pos; if (!s.insert({q.x + 0.0, q.y + 0.0, q.z + 0.0}).second) return true; } return false;
}
// coincident vertices other than the consecutive duplicates the library makes for vertices with many edges
static bool odd_coincident(r3d_poly* p) {
  std::map<std::array<double, 3>, int> last; for (int v = 0; v < p->nverts; ++v) { auto& q = p->verts[v].pos; std::array<double, 3> k{q.x + 0.0, q.y + 0.0, q.z + 0.0}; auto it = last.find(k); if (it != last.end() && it->second != v - 1) return true; last[k] = v; }
  return false;
}
static int graph_faces(r3d_poly* p, std::vector<std::vector<int>>* out = nullptr) {
  int n = p->nverts, faces = 0; std::vector<std::array<char, 3>> m((size_t)n, {0, 0, 0});
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) if (!m[(size_t)v][(size_t)k]) {
    ++faces; int a = v, e = k; std::vector<int> cyc;
    while (!m[(size_t)a][(size_t)e]) { m[(size_t)a][(size_t)e] = 1; cyc.push_back(a); int b = p->verts[a].pnbrs[e], j; for (j = 0; j < 3; ++j) if (p->verts[b].pnbrs[j] == a) break; a = b; e = (j + 2) % 3; }
    if (out) out->push_back(cyc);
  }
  return faces;
}
static void brep_check(Ctx& x, Slot<D3>& s, r3d_brep* b, int n) {
  const Op& op = x.op; r3d_poly* p = s.p();
  int comps = components(p);
  bool odd = odd_coincident(p);
  if (n != comps) violate("wrong-boundary", "%d components reported for a polyhedron with %d, op %d", n, comps, op.id);
  if (n > 0 && !b) violate("wrong-boundary", "no array for %d components, op %d", n, op.id);
  std::set<std::array<double, 3>> pos; for (int v = 0; v < p->nverts; ++v) { auto& q = p->verts[v].pos; pos.insert({q.x + 0.0, q.y + 0.0, q.z + 0.0}); }
  std::set<std::array<double, 3>> used;
  Ref<3> enc;
  for (int c = 0; c < n; ++c) {
    if (b[c].numvertices <= 0 || b[c].numvertices > p->nverts || b[c].numfaces <= 0 || b[c].numfaces > p->nverts) violate("wrong-boundary", "component %d with %d vertices and %d faces, op %d", c, b[c].numvertices, b[c].numfaces, op.id);
    std::set<std::array<double, 3>> mine;   // runs of coincident vertices come out as one
    for (int v = 0; v < b[c].numvertices; ++v) { auto& q = b[c].vertices[v]; std::array<double, 3> k{q.x + 0.0, q.y + 0.0, q.z + 0.0}; if (!pos.count(k)) violate("wrong-boundary", "component %d vertex %d is not a vertex of the polyhedron, op %d", c, v, op.id); used.insert(k);
      if (!mine.insert(k).second && !odd) violate("wrong-boundary", "component %d lists vertex %d at a position it has already listed, op %d", c, v, op.id); }
    std::map<std::pair<int, int>, int> edge; std::vector<char> seen((size_t)b[c].numvertices, 0);
    for (int f = 0; f < b[c].numfaces; ++f) {
      int m = b[c].numvertsperface[f];
      if (m < 0 || m > p->nverts) violate("wrong-boundary", "face %d of component %d has %d vertices, op %d", f, c, m, op.id);
      for (int i = 0; i < m; ++i) { int a = b[c].faceinds[f][i], z = b[c].faceinds[f][(i + 1) % m];
        if (a < 0 || a >= b[c].numvertices) violate("wrong-boundary", "face %d of component %d refers to vertex %d of %d, op %d", f, c, a, b[c].numvertices, op.id);
        seen[(size_t)a] = 1; if (a != z) edge[{a, z}]++; }
      for (int i = 1; i + 1 < m; ++i) { Ref<3>::Sx t; int q[4] = {-1, b[c].faceinds[f][0], b[c].faceinds[f][i], b[c].faceinds[f][i + 1]};
        for (int j = 0; j < 3; ++j) { t.v[0][j] = 0; for (int w = 1; w < 4; ++w) t.v[w][j] = b[c].vertices[q[w]].xyz[j]; } t.sign = 1; enc.add(t); }
    }
    for (auto& e : edge) { auto it = edge.find({e.first.second, e.first.first}); int back = it == edge.end() ? 0 : it->second; if (back != e.second) violate("wrong-boundary", "component %d: edge %d->%d used %d times, its reverse %d times: not a closed oriented surface, op %d", c, e.first.first, e.first.second, e.second, back, op.id); }
    for (int v = 0; v < b[c].numvertices; ++v) if (!seen[(size_t)v] && !odd && b[c].numvertices > 1) violate("wrong-boundary", "component %d: vertex %d belongs to no face, op %d", c, v, op.id);
  }
  if (!odd && used.size() != pos.size()) violate("wrong-boundary", "boundaries use %zu of %zu vertex positions, op %d", used.size(), pos.size(), op.id);
  if (!odd) { // the same cyclic sequences of positions, each once
    auto canon = [](std::vector<std::array<double, 3>> v) { std::vector<std::array<double, 3>> u; for (auto& q : v) if (u.empty() || u.back() != q) u.push_back(q); while (u.size() > 1 && u.front() == u.back()) u.pop_back(); if (u.size() == 1) u.clear();
      size_t best = 0; for (size_t i = 1; i < u.size(); ++i) if (u[i] < u[best]) best = i; std::rotate(u.begin(), u.begin() + (long)best, u.end()); return u; };
    std::multiset<std::vector<std::array<double, 3>>> a, d;
    std::vector<std::vector<int>> cyc; graph_faces(p, &cyc);
    for (auto& q : cyc) { std::vector<std::array<double, 3>> v; for (int i : q) { auto& z = p->verts[i].pos; v.push_back({z.x + 0.0, z.y + 0.0, z.z + 0.0}); } v = canon(v); if (v.size() > 2) a.insert(v); }
    for (int c = 0; c < n; ++c) for (int f = 0; f < b[c].numfaces; ++f) { std::vector<std::array<double, 3>> v; for (int i = 0; i < b[c].numvertsperface[f]; ++i) { auto& z = b[c].vertices[b[c].faceinds[f][i]]; v.push_back({z.x + 0.0, z.y + 0.0, z.z + 0.0}); } v = canon(v); if (v.size() > 2) d.insert(v); }
    if (a != d) violate("wrong-boundary", "the reported faces are not the faces of the polyhedron, op %d", op.id);
  }
  // moments enclosed
  Arg<double> m(10); quiet(x, cost_reduce<D3>(p->nverts, 10), [&] { D3::reduce(p, m.p, 2); });
  std::vector<ld> w; enc.moments(2, w); auto deg = mom_degrees<3>(2);
  for (int i = 0; i < 10; ++i) { ld t = enc.tol(deg[(size_t)i]) * 10 + (s.refok && W->refs ? s.ref.tol(deg[(size_t)i]) : 0); ld e = fabsl((ld)m.p[i] - w[(size_t)i]); sim.st.refchecks++; if (e == e) ratio("brep", (double)(e / t));
    if (!(e <= t)) violate("wrong-boundary", "moment %d enclosed by the boundaries is %.17Lg, the polyhedron has %.17g, op %d", i, w[(size_t)i], m.p[i], op.id); }
}
static bool op_brep(Ctx& x, const std::string& f) {
  const Op& op = x.op; Hash h; h.adds(op.name);
  long bid = World::key(op.task, op.iv[f == "binit" ? 1 : 0]);
  BrepSlot& B = W->br[bid];
  if (!B.have) { B.g = pool.get(16, 8); B.have = true; }
  if (f == "binit") {
    Slot<D3>& s = W->slot<D3>(op.task, op.iv[0]);
    if (s.state != LIVE || B.state == LIVE || B.taint) { x.r.state = 0; if (W->taint && s.state != LIVE && B.state != LIVE) B.taint = true; return true; }
    *B.pp() = (r3d_brep*)(uintptr_t)0x5a5a5a5a5a58ull; *B.pn() = 12345; B.state = DEAD;
    Hash hb; hash_poly<D3>(hb, s.p());
    heap_begin(op.id);
    double n = std::max(0, (int)s.p()->nverts); if (n == 0) sim.st.probes["empty_conversions"]++;
    { Prot<D3> pr(s, "polyhedron being converted"); if (!call(x, 4000.0 * n * n + 600.0 * D3::CAP * (n + 4), [&] { r3d_init_brep(s.p(), B.pp(), B.pn()); })) { heap_forget(op.id); return false; } }
    u64 failed = heap_failed_of(op.id);
    Hash ha; hash_poly<D3>(ha, s.p());
    if ((g_checks & CK_HEAP) && ha.h != hb.h) violate("input-changed", "boundary extraction changed the polyhedron, op %d", op.id);
    if (failed) {
      sim.st.probes["alloc_failed_calls"]++;
      if ((g_checks & CK_HEAP) && *B.pn() != 0) {
        // surviving a failed allocation completely is fine too
        bool usable = *B.pn() > 0 && *B.pn() == components(s.p());
        if (!usable) violate("not-atomic", "conversion with a failed allocation reports %d components, op %d", *B.pn(), op.id);
      }
      if (*B.pn() == 0) {
        if (g_checks & CK_HEAP) { heap_check_all(); u64 l = heap_live_blocks(op.id); if (l) violate("leak", "%llu blocks still allocated after a conversion that failed, op %d", (unsigned long long)l, op.id); }
        x.r.status = 0; x.r.dig = h.h; return true;
      }
    }
    B.state = LIVE; B.op = op.id; B.src = (int)op.iv[0]; B.odd = odd_coincident(s.p());
    if (g_checks & (CK_BREP | CK_HEAP)) heap_check_all();
    if (g_checks & CK_BREP) brep_check(x, s, *B.pp(), *B.pn());
    else if ((g_checks & CK_HEAP) && *B.pn() != components(s.p())) violate("not-atomic", "conversion reports %d components instead of %d, op %d", *B.pn(), components(s.p()), op.id);
    hash_brep(h, *B.pp(), *B.pn());
  } else if (f == "bfree") {
    if (B.state != LIVE) { x.r.state = 0; B.taint = false; return true; }
    B.state = DEAD;
    if (!call(x, 1e6 + 4000.0 * D3::CAP, [&] { r3d_free_brep(B.pp(), *B.pn()); })) { heap_forget(B.op); return false; }
    B.state = EMPTY;
    if (g_checks & CK_HEAP) { heap_check_all(); u64 l = heap_live_blocks(B.op); if (l) violate("leak", "%llu blocks of the boundary still allocated after releasing it, op %d", (unsigned long long)l, op.id); }
  } else if (f == "bprint") {
    if (B.state != LIVE) { x.r.state = 0; return true; }
    if (g_checks & CK_RO) {   // a copy in pages that cannot be written
      int n = *B.pn(); r3d_brep* b = *B.pp(); std::vector<r3d_rvec3> v; std::vector<int> cnt, ind; for (int c = 0; c < n; ++c) { v.insert(v.end(), b[c].vertices, b[c].vertices + b[c].numvertices); for (int q = 0; q < b[c].numfaces; ++q) { cnt.push_back(b[c].numvertsperface[q]); ind.insert(ind.end(), b[c].faceinds[q], b[c].faceinds[q] + b[c].numvertsperface[q]); } }
      Arg<r3d_rvec3> av(v.data(), v.size()); Arg<int> ac(cnt.data(), cnt.size()), ai(ind.data(), ind.size()); Arg<int*> at(cnt.size()); Arg<r3d_brep> ab(b, (size_t)n); Arg<r3d_brep*> ap(1); *ap.p = ab.p;
      size_t vo = 0, fo = 0, io = 0; for (int c = 0; c < n; ++c) { ab.p[c].vertices = av.p + vo; vo += (size_t)b[c].numvertices; ab.p[c].numvertsperface = ac.p + fo; ab.p[c].faceinds = at.p + fo; for (int q = 0; q < b[c].numfaces; ++q) { at.p[fo++] = ai.p + io; io += (size_t)b[c].numvertsperface[q]; } }
      for (const char* w : {"boundary being printed"}) { av.protect(w); ac.protect(w); ai.protect(w); at.protect(w); ab.protect(w); ap.protect(w); }
      if (!call(x, 3e6 + 20000.0 * D3::CAP, [&] { r3d_print_brep(ap.p, n); })) return false;
    } else if (!call(x, 3e6 + 20000.0 * D3::CAP, [&] { r3d_print_brep(B.pp(), *B.pn()); })) return false;
  } else if (f == "brebuild") {   // iv: brep, dst
    if (B.state != LIVE) { x.r.state = 0; if (W->taint) W->slot<D3>(op.task, op.iv[1]).state = DEAD; return true; }
    Slot<D3>& d = W->slot<D3>(op.task, op.iv[1]); Slot<D3>& src = W->slot<D3>(op.task, B.src);
    Shape3 sh; r3d_brep* b = *B.pp();
    for (int c = 0; c < *B.pn(); ++c) { int o = (int)sh.v.size(); for (int v = 0; v < b[c].numvertices; ++v) sh.v.push_back({b[c].vertices[v].x, b[c].vertices[v].y, b[c].vertices[v].z}); for (int q = 0; q < b[c].numfaces; ++q) { std::vector<int> f2; for (int i = 0; i < b[c].numvertsperface[q]; ++i) f2.push_back(o + b[c].faceinds[q][i]); if (f2.size() >= 3) sh.f.push_back(f2); } }
    if (sh.v.empty() || B.odd) { x.r.state = 0; return true; }
    std::vector<int> e(sh.v.size(), 0); for (auto& q : sh.f) for (int i : q) e[(size_t)i]++; for (int q : e) if (q < 3) { x.r.state = 0; return true; }
    { // merging coincident vertices can leave faces that meet themselves: r3d_init_poly does not take those
      std::set<std::pair<int, int>> de; bool simple = true;
      for (auto& q : sh.f) { std::set<int> u(q.begin(), q.end()); if (u.size() != q.size()) simple = false; for (size_t i = 0; i < q.size(); ++i) if (!de.insert({q[i], q[(i + 1) % q.size()]}).second) simple = false; }
      if (!simple) { x.r.state = 0; return true; } }
    if (&d == &src) { x.r.state = 0; return true; }
    d.state = DEAD; int st = 0;
    if (W->scribble) fill_garbage(d.p(), sizeof(r3d_poly), W->gseed ^ mix64((u64)op.id * 3 + 1));
    if (!init_shape3(x, d, sh, st)) return false;
    h.add((u64)(st != 0)); x.r.status = st != 0;
    if (!st) { capfail<D3>(x, d); x.r.dig = h.h; if ((g_checks & CK_BREP) && sh.need() <= D3::CAP) violate("wrong-boundary", "rebuilding from the boundary fails (%d vertices needed), op %d", sh.need(), op.id); return true; }
    d.state = LIVE; d.convex = false; d.isbox = false; d.generic = false;
    Ref<3> enc; for (auto& q : sh.f) for (size_t i = 1; i + 1 < q.size(); ++i) { Ref<3>::Sx t; for (int j = 0; j < 3; ++j) { t.v[0][j] = 0; t.v[1][j] = sh.v[(size_t)q[0]][(size_t)j]; t.v[2][j] = sh.v[(size_t)q[i]][(size_t)j]; t.v[3][j] = sh.v[(size_t)q[i + 1]][(size_t)j]; } t.sign = 1; enc.add(t); }
    d.ref = enc; d.refok = W->refs;
    if (g_checks & CK_BREP) {
      Arg<double> m(4); quiet(x, cost_reduce<D3>(d.p()->nverts, 4), [&] { D3::reduce(d.p(), m.p, 1); });
      std::vector<ld> w; enc.moments(1, w); for (int i = 0; i < 4; ++i) { ld t = enc.tol(i > 0) * 10; ld er = fabsl((ld)m.p[i] - w[(size_t)i]); if (!(er <= t)) violate("wrong-boundary", "polyhedron rebuilt from the boundary has moment %d = %.17g instead of %.17Lg, op %d", i, m.p[i], w[(size_t)i], op.id); }
      graph_check<D3>(x, d.p(), "rebuilt polyhedron");
    }
    hash_poly<D3>(h, d.p()); scribble_tail<D3>(d, (u64)op.id);
  }
  x.r.dig = h.h; return true;
}

// ---------------------------------------------------------------- deprecated interface
extern "C" {
typedef struct { double n[3]; double d; } sh_plane3;
typedef struct { double n[2]; double d; } sh_plane2;
void dep_vox(const double* planes, double** moments, int order, void* orient, long bufsz, const int* n, const double* d);
void dep_ras(const double* planes, double** moments, int order, void* orient, long bufsz, const int* n, const double* d);
void dept_vox(const double* planes, double** moments, int order, void* orient, long bufsz, const int* n, const double* d);
void dept_ras(const double* planes, double** moments, int order, void* orient, long bufsz, const int* n, const double* d);
unsigned long dep_orient_size3(void);
unsigned long dep_orient_size2(void);
void dep_tetfaces(const double* verts, double* planes);
void dep_quadfaces(const double* verts, int n, double* planes);
}
template <int N> static void dep_check(Ctx& x, const Ref<N>& ref, const int* n, const double* d, int order, std::vector<double*>& mom) {
  static const int map3[10] = {0, 1, 2, 3, 4, 7, 9, 5, 8, 6};   // deprecated index -> row-major index
  static const int map2[6] = {0, 1, 2, 3, 5, 4};
  int lo[N]; for (int j = 0; j < N; ++j) lo[j] = 0;
  typedef typename std::conditional<N == 2, D2, D3>::type D;
  Ref<N> r = ref; for (int j = 0; j < N; ++j) for (int k = 0; k < 2; ++k) { RefPlane<N> q; for (int i = 0; i < N; ++i) q.n[i] = 0; q.n[j] = k ? -1 : 1; q.d = k ? (ld)n[j] * d[j] : 0; r.clip(q); }
  std::vector<ld> want; if (!want_cells<D>(r, lo, n, d, order, want)) return;
  int nm = D::nmom(order); auto deg = mom_degrees<N>(order); size_t cells = want.size() / (size_t)nm;
  for (size_t c = 0; c < cells; ++c) for (int k = 0; k < nm; ++k) {
    int src = N == 3 ? map3[k] : map2[k];
    ld w = want[c * (size_t)nm + (size_t)src]; double g = mom[(size_t)k][c];
    ld t = 4000.0L * Ref<N>::EPS * 64 * Ref<N>::powi(std::max(r.R, REFUNIT), N + deg[(size_t)src]) + cell_tol<D>(ref, deg[(size_t)src], d, lo, n);
    ld e = fabsl((ld)g - w); sim.st.refchecks++; if (e == e) ratio(N == 3 ? "dep3" : "dep2", (double)(e / t));
    if (!(e <= t)) violate("wrong-cell", "deprecated %s: cell %zu moment %d is %.17g instead of %.17Lg (tolerance %.2Lg), op %d", N == 3 ? "voxelizer" : "rasterizer", c, k, g, w, t, x.op.id);
  }
}
// iv: tree flag, order, n..; dv: d.., vertices of the tetrahedron / quadrilateral
template <int N> static bool op_dep(Ctx& x) {
  const Op& op = x.op; Hash h; h.adds(op.name);
  int tree = (int)op.iv[0], order = (int)op.iv[1]; int n[3] = {1, 1, 1}; double d[3] = {1, 1, 1};
  for (int j = 0; j < N; ++j) { n[j] = (int)op.iv[(size_t)(2 + j)]; d[j] = op.dv[(size_t)j]; }
  int nm = N == 3 ? (order == 0 ? 1 : order == 1 ? 4 : 10) : (order == 0 ? 1 : order == 1 ? 3 : 6);
  size_t cells = 1, pts = 1; for (int j = 0; j < N; ++j) { cells *= (size_t)n[j]; pts *= (size_t)(n[j] + 1); }
  std::vector<double> verts(op.dv.begin() + N, op.dv.end());
  Arg<double> av(verts.data(), verts.size()); av.protect("vertex array");
  Arg<double> pl((size_t)(N + 1) * 4);
  if (!call(x, 100000, [&] { if (N == 3) dep_tetfaces(av.p, pl.p); else dep_quadfaces(av.p, 4, pl.p); })) return false;
  pl.protect("face planes");
  // the client's buffers: kept from earlier calls of the same size, with whatever those (or cut-short ones) left in them
  long slot = op.iv.size() > (size_t)(2 + N) ? op.iv[(size_t)(2 + N)] : 0, retry = op.iv.size() > (size_t)(3 + N) ? op.iv[(size_t)(3 + N)] : 0, keep = op.iv.size() > (size_t)(4 + N) ? op.iv[(size_t)(4 + N)] : 0;
  std::vector<double*> mom; size_t osz = N == 3 ? dep_orient_size3() : dep_orient_size2();
  auto buffer = [&](long k, size_t bytes, bool& fresh) { std::vector<long> key{World::key(op.task, slot), N, k, (long)bytes}; auto it = W->depbuf.find(key); fresh = it == W->depbuf.end(); if (fresh) it = W->depbuf.emplace(key, pool.get(bytes, 8)).first; return it->second.obj; };
  for (int k = 0; k < nm; ++k) { bool fr; double* q = (double*)buffer(k, cells * 8, fr); if (fr || !keep) for (size_t i = 0; i < cells; ++i) q[i] = W->scribble ? sentinel(i, W->gseed ^ (u64)(op.id * 13 + k)) : 3.0; mom.push_back(q); }
  bool fr; char* orient = (char*)buffer(-1, (pts * osz + 7) / 8 * 8, fr); if (fr || !keep) fill_garbage(orient, pts * osz, W->gseed ^ (u64)op.id);
  Arg<double*> mp(mom.data(), mom.size()); mp.protect("table of moment grids");
  Arg<int> an(n, 3); Arg<double> ad(d, 3); an.protect("grid size"); ad.protect("cell size");
  for (;;) {
    bool ok = call(x, 200000.0 * (double)(cells + 8) + 4000.0 * (double)pts, [&] {
        if (N == 3) (tree ? dept_vox : dep_vox)(pl.p, mp.p, order, orient, (long)pts, an.p, ad.p);
        else (tree ? dept_ras : dep_ras)(pl.p, mp.p, order, orient, (long)pts, an.p, ad.p); });
    if (ok) { x.r.state = 1; break; }
    if (retry-- <= 0) return false;    // otherwise the cut-short run is simply repeated
    sim.st.probes["repeated_after_cut"]++;
  }
  for (int k = 0; k < nm; ++k) for (size_t i = 0; i < cells; ++i) hd(h, mom[(size_t)k][i]);
  if (g_checks & CK_CELLS) {
    Ref<N> ref;
    if (N == 3) { typename Ref<N>::Sx t; for (int i = 0; i <= N; ++i) for (int j = 0; j < N; ++j) t.v[i][j] = verts[(size_t)(i * N + j)]; ref.add(t); for (auto& q : ref.s) q.sign = 1; }
    else for (int k = 1; k < 3; ++k) { typename Ref<N>::Sx t; int id[3] = {0, k, k + 1}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) t.v[i][j] = verts[(size_t)(id[i] * 2 + j)]; ref.add(t); if (!ref.s.empty()) ref.s.back().sign = 1; }
    dep_check<N>(x, ref, n, d, order, mom);
  }
  x.r.dig = h.h; return true;
}

// ---------------------------------------------------------------- printed text
static std::vector<std::string> lines_of(const std::string& t) { std::vector<std::string> v; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); v.push_back(t.substr(p, e - p)); p = e + 1; } return v; }
static std::vector<double> numbers_of(const std::string& l) {
  std::vector<double> v; size_t i = 0;
  while (i < l.size()) {
    char c = l[i];
    if (isalpha((unsigned char)c) || c == '_') { while (i < l.size() && (isalnum((unsigned char)l[i]) || l[i] == '_')) ++i; continue; }
    if (isdigit((unsigned char)c) || ((c == '-' || c == '+' || c == '.') && i + 1 < l.size() && (isdigit((unsigned char)l[i + 1]) || l[i + 1] == '.'))) { char* e; v.push_back(strtod(l.c_str() + i, &e)); i = (size_t)(e - l.c_str()); continue; }
    ++i;
  }
  return v;
}
static bool has(const std::string& l, const char* w) { return l.find(w) != std::string::npos; }
static bool near_num(double a, double b, double rel) { return a == b || std::fabs(a - b) <= rel * std::fabs(b) + 1e-300; }
template <class D> static void text_poly(Ctx& x, const std::string& t) {
  Slot<D>& s = W->slot<D>(x.op.task, x.op.iv[0]); int v = 0, n = std::max(0, (int)s.p()->nverts);
  for (auto& l : lines_of(t)) {
    if (!has(l, "vert") || has(l, "vertices")) continue;
    auto q = numbers_of(l);
    if (v >= n) violate("wrong-text", "printout lists more than the %d vertices, op %d %s", n, x.op.id, x.op.name.c_str());
    auto& vx = s.p()->verts[v]; std::vector<double> w{(double)v}; for (int j = 0; j < D::N; ++j) w.push_back(D::xyz(vx.pos)[j]); for (int k = 0; k < D::NB; ++k) w.push_back((double)vx.pnbrs[k]);
    bool ok = q.size() == w.size(); for (size_t i = 0; ok && i < w.size(); ++i) ok = near_num(q[i], w[i], i >= 1 && (int)i <= D::N ? (D::N == 4 ? 2e-5 : 2e-10) : 0);
    if (!ok) violate("wrong-text", "printout of vertex %d of %d does not match the object: '%s', op %d %s", v, n, l.c_str(), x.op.id, x.op.name.c_str());
    ++v;
  }
  if (v != n) violate("wrong-text", "printout lists %d of %d vertices, op %d %s", v, n, x.op.id, x.op.name.c_str());
}
static void text_brep(Ctx& x, const std::string& t) {
  BrepSlot& B = W->br[World::key(x.op.task, x.op.iv[0])]; if (B.state != LIVE) return;
  r3d_brep* b = *B.pp(); int n = *B.pn();
  struct Item { char k; int c; int i; }; std::vector<Item> want; for (int c = 0; c < n; ++c) { for (int v = 0; v < b[c].numvertices; ++v) want.push_back({'v', c, v}); for (int f = 0; f < b[c].numfaces; ++f) want.push_back({'f', c, f}); }
  size_t at = 0; int comp = -1;
  for (auto& l : lines_of(t)) {
    auto q = numbers_of(l); bool isv = has(l, "vertex") && !has(l, "vertices"), isf = has(l, "face ") && !has(l, "faces");
    if (has(l, "component") && !has(l, "component(s)") && !q.empty() && !isv && !isf) { int c = (int)q[0]; if (c != comp && c != comp + 1) violate("wrong-text", "components printed out of order, op %d", x.op.id); comp = c; }
    if (!isv && !isf) continue;
    if (at >= want.size()) violate("wrong-text", "printout lists more than the boundary has, op %d", x.op.id);
    Item it = want[at++]; std::vector<double> w{(double)it.i};
    if ((it.k == 'v') != isv || it.c != comp) violate("wrong-text", "printout out of order at '%s', op %d", l.c_str(), x.op.id);
    if (isv) for (double z : b[it.c].vertices[it.i].xyz) w.push_back(z);
    else { w.push_back((double)b[it.c].numvertsperface[it.i]); for (int i = 0; i < b[it.c].numvertsperface[it.i]; ++i) w.push_back((double)b[it.c].faceinds[it.i][i]); }
    bool ok = q.size() == w.size(); for (size_t i = 0; ok && i < w.size(); ++i) ok = near_num(q[i], w[i], isv && i ? 2e-10 : 0);
    if (!ok) violate("wrong-text", "printout does not match the boundary: '%s', op %d", l.c_str(), x.op.id);
  }
  if (at != want.size() || comp != n - 1) violate("wrong-text", "printout lists %zu of %zu vertices and faces and %d of %d components, op %d", at, want.size(), comp + 1, n, x.op.id);
}

// ---------------------------------------------------------------- dispatch
// the plan's numbers are of ordinary size; its length unit may be a power of two far from one
static Op in_units(Op o) {
  double u = (double)REFUNIT; std::string f = o.name.substr(o.name.find('.') + 1); int n = o.name[0] == '4' ? D4::N : o.name[0] - '0'; size_t w = (size_t)(n + 1);
  auto all = [&] { for (double& q : o.dv) q *= u; };
  if (o.name[0] == 'd') all();
  else if (f == "box" || f == "simplex" || f == "orient" || f == "clipf" || f == "shift" || f == "faces" || f == "clamp" || f == "vox" || f == "ibox" || f == "grid" || f == "tile" || f == "assemble") all();
  else if (f == "clip") { for (size_t i = w - 1; i < o.dv.size(); i += w) o.dv[i] *= u; }
  else if (f == "split" || f == "clipv") { for (size_t i = w - 1; i < o.dv.size(); ++i) o.dv[i] *= u; }
  else if (f == "xf" && o.iv[1] == 0) all();
  else if (f == "xf" && o.iv[1] == 4) { for (int i = 0; i < n; ++i) o.dv[(size_t)i * w + w - 1] *= u; for (int j = 0; j < n; ++j) o.dv[(size_t)n * w + (size_t)j] /= u; }
  return o;
}
void exec_op(TaskCtl* c, const Op& op0) {
  Op scaled; if (REFUNIT != 1) scaled = in_units(op0);
  const Op& op = REFUNIT != 1 ? scaled : op0;
  Res r; Ctx x{c, op, r};
  begin_op(c, op.id + ATTEMPT * cur_attempt, op.name.c_str(), ~0ull); cur_exec_op = op.id;
  sim.st.ops++;
  const std::string& nme = op.name; std::string f = nme.substr(nme.find('.') + 1);
  r.state = 1; r.status = 1;
  bool text = sim.mode == M_SEQ, clean = W->healthy; u64 wf = out_failed();
  if (text) { out_take(); clean = W->healthy || (out_flushed() && out_failed() == wf); err_take(); }
  if (f == "ckpt") r.dig = 1;   // handled by the executor
  else if (nme[0] == 'd') { if (nme[1] == '3') op_dep<3>(x); else op_dep<2>(x); }
  else if (f == "poly") { if (nme[0] == '2') op_poly2(x); else op_poly3(x); }
  else if (f == "faces") op_faces(x, nme[0] == '2');
  else if (f == "clipf") { if (nme[0] == '2') op_clipf2(x); else op_clipf3(x); }
  else if (f == "binit" || f == "bfree" || f == "bprint" || f == "brebuild") op_brep(x, f);
  else if (nme[0] == '2') run_common<D2>(x, f);
  else if (nme[0] == '3') run_common<D3>(x, f);
  else if (nme[0] == '4') run_common<D4>(x, f);
  else fatal("unknown operation %s", nme.c_str());
  if (r.state == 0) sim.st.skipped++;
  if (text) { r.text = out_take(); clean = W->healthy || (clean && out_flushed() && out_failed() == wf); err_take(); }
  if (text && r.state == 1 && (g_checks & CK_TEXT) && clean) {   // nothing failed since the operation began
    if (!W->healthy && wf && (f == "print" || f == "bprint")) sim.st.probes["texts_checked_after_faults"]++;
    if (f == "bprint") text_brep(x, r.text);
    else if (f == "print") { if (nme[0] == '2') text_poly<D2>(x, r.text); else if (nme[0] == '3') text_poly<D3>(x, r.text); else text_poly<D4>(x, r.text); }
    sim.st.probes["texts_checked"] += f == "print" || f == "bprint";
  }
  sim.st.probes[nme + (r.state == 0 ? ":skipped" : r.state == 2 ? ":abandoned" : r.status ? ":ok" : ":full")]++;
  r.steps = c->steps;
  W->res[op.id] = r;
  c->op = -1;
}

// ---------------------------------------------------------------- crash and restart
int cur_attempt = 0;
template <class D> struct SlotImage { int state; int n; std::vector<char> rest; std::vector<typename std::remove_reference<decltype(((typename D::Poly*)0)->verts[0])>::type> v; };
template <class D> struct Images { std::map<long, SlotImage<D>> s; std::map<long, std::pair<Grid<D>, std::vector<double>>> g; };
struct Image { Images<D2> i2; Images<D3> i3; Images<D4> i4; };
template <class D> static void save(Images<D>& im) {
  for (auto& q : W->slots<D>()) { SlotImage<D> x; x.state = q.second.state; x.n = 0; if (q.second.state == LIVE) { x.n = std::max(0, (int)q.second.p()->nverts); x.v.assign(q.second.p()->verts, q.second.p()->verts + x.n); char* e = (char*)&q.second.p()->verts[D::CAP]; x.rest.assign(e, (char*)(q.second.p() + 1)); } im.s[q.first] = x; }
  for (auto& q : W->grids<D>()) if (q.second.state == LIVE) im.g[q.first] = {q.second, std::vector<double>(q.second.p(), q.second.p() + q.second.n)};
}
template <class D> static void load(const Images<D>& im, u64 salt) {
  std::vector<Guarded> old;
  for (auto& q : W->slots<D>()) { Slot<D>& s = q.second; if (!s.have) continue; old.push_back(s.g); s.g = pool.get(sizeof(typename D::Poly), alignof(typename D::Poly)); fill_garbage(s.g.obj, s.g.size, salt ^ mix64((u64)q.first)); auto it = im.s.find(q.first);
    s.state = it == im.s.end() ? EMPTY : it->second.state; if (s.state == LIVE) { memcpy((void*)&s.p()->verts[D::CAP], it->second.rest.data(), it->second.rest.size()); for (int v = 0; v < it->second.n; ++v) s.p()->verts[v] = it->second.v[(size_t)v]; } }
  for (auto& q : W->grids<D>()) { Grid<D>& g = q.second; if (g.n) old.push_back(g.g); auto it = im.g.find(q.first); if (it == im.g.end()) { g.state = EMPTY; g.n = 0; continue; }
    g = it->second.first; g.g = pool.get(g.n * sizeof(double), 8); memcpy(g.p(), it->second.second.data(), g.n * sizeof(double)); }
  for (auto& q : old) pool.put(q);
}
std::shared_ptr<Image> take_image() {
  for (auto& b : W->br) if (b.second.state == LIVE) return nullptr;
  auto im = std::make_shared<Image>(); save<D2>(im->i2); save<D3>(im->i3); save<D4>(im->i4); return im;
}
void restart_from(const std::shared_ptr<Image>& im, u64 salt) {
  lib_reset(); locks_reset(); heap_reset(); sim.st.probes["restarts"]++;
  for (auto& b : W->br) b.second.state = EMPTY, b.second.taint = false;
  for (auto& g : W->depbuf) pool.put(g.second);
  W->depbuf.clear();
  load<D2>(im->i2, salt); load<D3>(im->i3, salt + 1); load<D4>(im->i4, salt + 2);
}

u64 final_digest() {
  Hash h;
  for (auto& s : W->s2) if (s.second.state == LIVE) { h.add((u64)s.first); hash_poly<D2>(h, s.second.p()); }
  for (auto& s : W->s3) if (s.second.state == LIVE) { h.add((u64)s.first); hash_poly<D3>(h, s.second.p()); }
  for (auto& s : W->s4) if (s.second.state == LIVE) { h.add((u64)s.first); hash_poly<D4>(h, s.second.p()); }
  for (auto& g : W->g2) if (g.second.state == LIVE) for (size_t i = 0; i < g.second.n; ++i) hd(h, g.second.p()[i]);
  for (auto& g : W->g3) if (g.second.state == LIVE) for (size_t i = 0; i < g.second.n; ++i) hd(h, g.second.p()[i]);
  for (auto& g : W->g4) if (g.second.state == LIVE) for (size_t i = 0; i < g.second.n; ++i) hd(h, g.second.p()[i]);
  for (auto& b : W->br) if (b.second.state == LIVE) hash_brep(h, *b.second.pp(), *b.second.pn());
  return h.h;
}
