// Plans from seeds: clients, their operations with explicit arguments, schedule parameters and faults.
#include "gen.h"
#include <cmath>
#include "dims.h"
#include "shapes.h"

u64 run_seed(const std::string& prop, u64 seed, u64 idx) {
  Hash h; h.adds(prop); h.add(seed); h.add(idx); return mix64(h.h);
}

namespace {
const double PI2 = 6.283185307179586;
struct Act { const char* n; double w; };
struct Prof {
  double dim[3] = {3, 5, 1};
  std::map<std::string, double> w{{"init", 2}, {"copy", 1}, {"clip", 6}, {"clipv", 1.5}, {"clipf", 0.7}, {"split", 2}, {"reduce", 2}, {"shift", 0.7}, {"xf", 2}, {"good", 0.6},
    {"print", 0.4}, {"center", 0.4}, {"orient", 0.2}, {"faces", 0.4}, {"ibox", 0.5}, {"clamp", 1}, {"vox", 1.2}, {"grid", 0.6}, {"dep", 1.5}, {"gcheck", 0.5},
    {"binit", 1.5}, {"bfree", 1}, {"bprint", 0.4}, {"brebuild", 0.5}, {"d3", 0.5}, {"d2", 0.4}};
  int maxsize = 60;       // parameter of generated shapes
  double degen = 0.4;     // share of grid-aligned geometry
  double big = 0.05;      // share of large shapes
  double huge = 0.018;    // share of shapes of a few hundred vertices
  double reflect = 0; bool retry = false;
  int maxorder = 4;
  void only(std::initializer_list<const char*> keep) { std::map<std::string, double> m; for (auto k : keep) m[k] = w[k]; w = m; }
  void mul(const char* k, double f) { w[k] *= f; }
};
struct TaskState { std::vector<long> live[3]; std::vector<long> shared[3]; int breps[2] = {0, 0}; long bsrc[2] = {0, 0}; bool grids[3][2] = {{0, 0}, {0, 0}, {0, 0}}; };

struct Gen {
  Rng r; Plan p; int nextid = 1; Prof f;
  std::map<int, TaskState> ts;
  explicit Gen(u64 s) : r(s) {}
  Op& add(int task, const std::string& name, std::vector<long> iv = {}, std::vector<double> dv = {}) {
    Op o; o.id = nextid++; o.task = task; o.name = name; o.iv = iv; o.dv = dv; p.ops.push_back(o); return p.ops.back();
  }
  static std::string nm(int d, const char* s) { return std::string(1, (char)('2' + d)) + "." + s; }
  double snap(double x) { return std::round(x * 4) / 4; }
  bool degen(int d) { return d < 2 && r.chance(f.degen); }
  std::vector<double> unit(int n) { std::vector<double> v((size_t)n); double l = 0; do { l = 0; for (double& q : v) { q = r.uni(-1, 1); l += q * q; } } while (l < 0.05 || l > 1); l = std::sqrt(l); for (double& q : v) q /= l; return v; }
  std::vector<double> axis(int n) { std::vector<double> v((size_t)n, 0.0); v[(size_t)r.below((u64)n)] = r.chance(0.5) ? 1 : -1; return v; }
  std::vector<double> plane(int d) {
    int n = d + 2; std::vector<double> v;
    if (degen(d)) {
      if (r.chance(0.7)) v = axis(n); else { v.assign((size_t)n, 0.0); size_t a = r.below((u64)n), b = (a + 1) % (size_t)n; v[a] = r.chance(0.5) ? 0.6 : -0.6; v[b] = r.chance(0.5) ? 0.8 : -0.8; }
      v.push_back(snap(r.uni(-0.35, 0.9)));
    } else { v = unit(n); v.push_back(r.chance(0.9) ? r.uni(-0.15, 0.8) : r.uni(-1.2, 0.2)); }
    return v;
  }
  std::vector<double> boxv(int d) {
    int n = d + 2; std::vector<double> lo, hi;
    bool g = degen(d), off = r.chance(0.15);
    for (int j = 0; j < n; ++j) { double a = r.uni(-1, -0.2), b = r.uni(0.2, 1); if (g) { a = snap(a); b = snap(b); if (b <= a) b = a + 0.5; } if (off) { double by = (r.chance(0.5) ? 1 : -1) * (g ? snap(r.uni(0.2, 1)) : r.uni(0.2, 1)); a += by; b += by; } lo.push_back(a); hi.push_back(b); }   // some lie off the origin
    lo.insert(lo.end(), hi.begin(), hi.end()); return lo;
  }
  static double det(std::vector<double> m, int n) {
    double s = 1;
    for (int c = 0; c < n; ++c) { int q = c; for (int i = c + 1; i < n; ++i) if (std::fabs(m[(size_t)(i * n + c)]) > std::fabs(m[(size_t)(q * n + c)])) q = i; if (m[(size_t)(q * n + c)] == 0) return 0;
      if (q != c) { for (int j = 0; j < n; ++j) std::swap(m[(size_t)(q * n + j)], m[(size_t)(c * n + j)]); s = -s; } s *= m[(size_t)(c * n + c)];
      for (int i = c + 1; i < n; ++i) { double t = m[(size_t)(i * n + c)] / m[(size_t)(c * n + c)]; for (int j = c; j < n; ++j) m[(size_t)(i * n + j)] -= t * m[(size_t)(c * n + j)]; } }
    return s;
  }
  std::vector<double> simplexv(int d, double scale = 1, double off = 0) {
    int n = d + 2; std::vector<double> v; bool g = degen(d);
    for (int tries = 0;; ++tries) {
      v.clear(); for (int i = 0; i <= n; ++i) for (int j = 0; j < n; ++j) { double q = r.uni(-1, 1); if (g) q = snap(q); v.push_back(q * scale + off); }
      std::vector<double> m; for (int i = 1; i <= n; ++i) for (int j = 0; j < n; ++j) m.push_back((v[(size_t)(i * n + j)] - v[(size_t)j]) / scale);
      double dt = det(m, n); if (std::fabs(dt) < (n == 2 ? 0.2 : n == 3 ? 0.15 : 0.3)) { if (tries > 200) g = false; continue; }
      // 3D: the library's positive order has the last vertex on the far side
      if (n == 3 ? dt < 0 : dt < 0) for (int j = 0; j < n; ++j) std::swap(v[(size_t)(n * n + j)], v[(size_t)((n - 1) * n + j)]);
      return v;
    }
  }
  // simplices for the orientation helpers: any order of vertices, some flat, small or far away
  std::vector<double> orientv(int d) {
    int n = d + 2; auto v = simplexv(d); double u = r.uni();
    for (int i = 0; i <= n; ++i) { int k = i + (int)r.below((u64)(n + 1 - i)); for (int j = 0; j < n; ++j) std::swap(v[(size_t)(i * n + j)], v[(size_t)(k * n + j)]); }
    if (u < 0.15) { double h = r.chance(0.3) ? 0 : std::pow(10.0, r.uni(-12, -1)); int i = (int)r.below((u64)(n + 1)), k = (i + 1) % (n + 1); for (int j = 0; j < n; ++j) v[(size_t)(i * n + j)] = v[(size_t)(k * n + j)] + h * r.uni(-1, 1); }
    else if (u < 0.3) { double h = std::pow(10.0, r.uni(-4, 3)); for (double& q : v) q *= h; }
    else if (u < 0.45) { double h = std::pow(10.0, r.uni(0, 6)); for (int j = 0; j < n; ++j) { double o = h * r.uni(-1, 1); for (int i = 0; i <= n; ++i) v[(size_t)(i * n + j)] += o; } }
    return v;
  }
  int size() { if (r.chance(f.huge)) return (int)r.range(60, 240); double u = r.uni(); return u < 1 - f.big - 0.2 ? (int)r.range(3, 8) : u < 1 - f.big ? (int)r.range(6, 20) : (int)r.range(20, std::max(21, f.maxsize)); }
  long anyslot() { return (long)r.below(5); }
  void mark(TaskState& t, int d, long s) { auto& v = t.live[d]; if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); }
  void init(int task, int d, long s) {
    TaskState& t = ts[task]; double u = r.uni();
    if (d == 2) { if (u < 0.6) add(task, "4.box", {s}, boxv(2)); else add(task, "4.simplex", {s}, simplexv(2)); }
    else if (u < 0.35) add(task, nm(d, "box"), {s}, boxv(d));
    else if (u < 0.5) add(task, nm(d, "simplex"), {s}, simplexv(d));
    else if (d == 0) add(task, "2.poly", {s, (long)r.below(3), std::min(250, size() * (r.chance(0.3) ? 2 : 1)), (long)r.below(1u << 30)});
    else { long k = r.chance(0.15) ? (r.chance(0.5) ? SH_TWO : SH_MANY) : (long)r.below(SH_NKINDS); int n = size(); if (k == SH_BIPYR || k == SH_PYRAMID) n = n >= 60 ? n / 3 : std::min(n, f.maxsize / 3 + 3); if (k == SH_STARPRISM) n = std::max(3, n / 2); add(task, "3.poly", {s, k, n, (long)r.below(1u << 30)}); }
    mark(t, d, s);
  }
  // a live object of the task; shared ones only where they are not modified
  long src(TaskState& t, int d, bool ro) { auto& v = t.live[d]; if (ro && !t.shared[d].empty() && (v.empty() || r.chance(0.35))) return t.shared[d][r.below(t.shared[d].size())]; return v[r.below(v.size())]; }
  std::vector<double> cellsize(int d, double scale = 1) {
    std::vector<double> v; double base = d == 0 ? r.uni(0.12, 0.6) : d == 1 ? r.uni(0.25, 0.9) : r.uni(0.6, 1.3);
    for (int j = 0; j < d + 2; ++j) v.push_back(scale * (degen(d) ? (r.chance(0.5) ? 0.25 : 0.5) : base * r.uni(0.8, 1.25))); return v;
  }
  int order(int d) { if (d == 2) return 0; double u = r.uni(); int m = f.maxorder; return u < 0.4 ? 0 : u < 0.65 ? std::min(1, m) : u < 0.85 ? std::min(2, m) : std::min((int)r.range(3, 5), m); }
  double graze() { double q = std::pow(10.0, r.chance(0.4) ? r.uni(-2.5, -0.5) : r.uni(-12.5, -2)); return r.chance(0.9) ? q : -q; }
  // planes placed relative to the object: through its vertices, edges or faces, or touching it, and possibly a little deeper
  void clipv(int task, int d, long s) {
    int n = d + 2; long mode = r.chance(0.3) ? 2 : (long)r.below(2); bool own = r.chance(0.5), deep = mode == 2 ? r.chance(0.9) : r.chance(0.3);
    auto v = unit(n); if (mode == 2 && degen(d)) v = axis(n); if (deep) v.push_back(graze());
    add(task, nm(d, "clipv"), {s, mode, (long)r.below(r.chance(0.2) ? 500 : 60), (long)r.below(60), (long)r.below(60), (long)r.below(2), own}, v);
  }
  // many objects split by one plane
  void burst(int task, int d, int k = 0) {
    bool many = k > 0; long in = many ? 400 : 20; if (!k) k = (int)r.range(4, r.chance(0.3) ? 24 : 11); std::vector<long> iv{k};
    for (int i = 0; i < k; ++i) { if (i && r.chance(many ? 0.9 : 0.4)) { add(task, nm(d, "copy"), {in + i, in + (long)r.below((u64)i)}); mark(ts[task], d, in + i); } else init(task, d, in + i); if (r.chance(many ? 0.03 : 0.2)) add(task, nm(d, "clip"), {in + i}, plane(d)); iv.push_back(in + i); }
    for (int i = 0; i < 2 * k; ++i) iv.push_back(600 + i);
    auto& lv = ts[task].live[d]; for (int i = 0; i < k; ++i) lv.erase(std::find(lv.begin(), lv.end(), in + i));
    for (int i = 0; i < 2 * k; ++i) mark(ts[task], d, 600 + i);
    iv.push_back(0); add(task, nm(d, "split"), iv, plane(d));
  }
  // everything that can be asked for in quantity at once
  void big_requests() {
    int n = (int)r.range(1, 3);
    for (int k = 0; k < n; ++k) { int d = pickdim(); double u = r.uni(); long s = 0;
      if (u < 0.3 && d < 2) { double h = f.huge, b = f.big; if (r.chance(0.6)) f.huge = 0.5; burst(0, d, (int)r.range(30, 140)); f.huge = h; f.big = b; continue; }
      init(0, d, s);
      if (u < 0.5) { std::vector<double> v; int np = (int)r.range(20, 300); for (int i = 0; i < np; ++i) { auto q = unit(d + 2); q.push_back(r.uni(0.3, 0.9)); v.insert(v.end(), q.begin(), q.end()); } add(0, nm(d, "clip"), {s}, v); }
      else if (u < 0.85) { double c = d == 0 ? std::pow(10.0, r.uni(-2.2, -1)) : d == 1 ? r.uni(0.04, 0.15) : r.uni(0.25, 0.5); std::vector<double> v; for (int j = 0; j < d + 2; ++j) v.push_back(c * r.uni(0.8, 1.25)); add(0, nm(d, "vox"), {s, d == 2 ? 0 : (long)r.below(d == 0 ? 5 : 4), 0, (long)r.below(2), 1}, v); }
      else if (d < 2) add(0, nm(d, "reduce"), {s, r.range(8, 16)});
    }
  }
  void xf(int task, int d, long s) {
    int n = d + 2; double u = r.uni(); std::vector<double> v;
    auto pair = [&](long& a, long& b) { a = (long)r.below((u64)n); do b = (long)r.below((u64)n); while (b == a); };
    long a = 0, b = 0;
    if (d < 2 && r.chance(0.04)) {   // far away, tiny or large
      if (r.chance(0.5)) { for (int j = 0; j < n; ++j) v.push_back(r.uni(-40, 40)); add(task, nm(d, "xf"), {s, 0, 0, 0}, v); if (r.chance(0.6)) { for (double& q : v) q = -q; add(task, nm(d, "xf"), {s, 0, 0, 0}, v); } }
      else { double k = std::pow(10.0, r.uni(-2, 1.5)); v.assign((size_t)n, k); add(task, nm(d, "xf"), {s, 2, 0, 0}, v); if (r.chance(0.6)) { v.assign((size_t)n, 1 / k); add(task, nm(d, "xf"), {s, 2, 0, 0}, v); } }
      return;
    }
    if (u < 0.3) { for (int j = 0; j < n; ++j) v.push_back(degen(d) ? snap(r.uni(-0.6, 0.6)) : r.uni(-0.4, 0.4)); add(task, nm(d, "xf"), {s, 0, 0, 0}, v); }
    else if (u < 0.5) { pair(a, b); add(task, nm(d, "xf"), {s, 1, a, b}, {r.uni(-3.1, 3.1)}); }
    else if (u < 0.65) { double k = r.uni(0.6, 1.5); if (f.reflect && r.chance(f.reflect)) k = -k; for (int j = 0; j < n; ++j) v.push_back(d == 2 ? r.uni(0.6, 1.5) : k); add(task, nm(d, "xf"), {s, 2, 0, 0}, v); }
    else if (u < 0.8) { pair(a, b); add(task, nm(d, "xf"), {s, 3, a, b}, {r.uni(-0.6, 0.6)}); }
    else {
      double w = r.chance(0.3) ? r.uni(0.5, 2) : 1;
      for (int tries = 0; tries < 50; ++tries) { v.clear(); std::vector<double> m;
        for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { double q = (i == j) + r.uni(-0.4, 0.4); m.push_back(q); v.push_back(q * w); } v.push_back(r.uni(-0.3, 0.3) * w); }
        if (det(m, n) > 0.3) break; }
      if (f.reflect && r.chance(3 * f.reflect)) for (int j = 0; j <= n; ++j) v[(size_t)j] = -v[(size_t)j];   // turn the object inside out
      { bool ps = r.chance(0.25); for (int j = 0; j < n; ++j) v.push_back(ps ? w * r.uni(-0.2, 0.2) : 0); } v.push_back(w);
      add(task, nm(d, "xf"), {s, 4, 0, 0}, v);
    }
  }
  void dep(int task, bool three) {
    int n = three ? 3 : 2; std::vector<long> iv{(long)r.below(2), (long)r.below(3)}; std::vector<double> dv;
    for (int j = 0; j < n; ++j) { long k = r.range(1, three ? 5 : 8); if (r.chance(0.1)) k = three ? 8 : 16; iv.push_back(k); dv.push_back(r.chance(0.4) ? 0.25 : r.uni(0.15, 0.6)); }
    if (three && r.chance(0.12)) { size_t a = (size_t)r.below(3); for (size_t j = 0; j < 3; ++j) iv[2 + j] = j == a ? r.range(7, 14) : std::min(iv[2 + j], 3L); }   // long and thin
    double ext[3]; for (int j = 0; j < n; ++j) ext[j] = (double)iv[(size_t)(2 + j)] * dv[(size_t)j];
    double off[3] = {0, 0, 0}; if (r.chance(0.15)) for (double& q : off) q = r.uni(-0.9, 0.9); bool sn = r.chance(0.12);
    if (three) { auto v = simplexv(1); double sc = r.chance(0.2) ? r.uni(1.2, 4) : r.uni(0.4, 1.2); for (size_t i = 0; i < v.size(); ++i) dv.push_back(v[i] * sc * 0.6 * ext[i % 3] + (0.5 + off[i % 3]) * ext[i % 3]); }
    else { // convex quadrilateral, counter-clockwise
      double ph = r.uni(0, PI2), sc = r.chance(0.2) ? r.uni(1.2, 3) : r.uni(0.4, 1.2); for (int i = 0; i < 4; ++i) { double a = ph + PI2 * (i + r.uni(-0.25, 0.25)) / 4; dv.push_back((0.5 + off[0]) * ext[0] + sc * 0.6 * ext[0] * std::cos(a)); dv.push_back((0.5 + off[1]) * ext[1] + sc * 0.6 * ext[1] * std::sin(a)); } }
    (void)sn; iv.push_back((long)r.below(2)); iv.push_back(f.retry && r.chance(0.7) ? (long)r.range(1, 3) : 0); iv.push_back(r.chance(0.5));
    add(task, three ? "d3.vox" : "d2.ras", iv, dv);
    while (r.chance(0.2)) { Op o = p.ops.back(); o.id = nextid++; o.iv.back() = r.chance(0.5); if (r.chance(0.3)) {
        if (three && r.chance(0.5)) { // one vertex moves toward or away from the centre of the others: the orientation stays as it is
          size_t k = (size_t)r.below(4); double t = r.uni(-0.15, 0.15);
          for (size_t j = 0; j < 3; ++j) { double c = 0; for (size_t i = 0; i < 4; ++i) if (i != k) c += o.dv[3 + 3 * i + j] / 3; double& q = o.dv[3 + 3 * k + j]; q += t * (c - q); } }
        else { double sh[3]; for (double& q : sh) q = r.uni(-0.02, 0.02); for (size_t i = (size_t)n; i < o.dv.size(); ++i) o.dv[i] += sh[(i - (size_t)n) % (size_t)n]; } }
      p.ops.push_back(o); }
  }
  int pickdim() { double s = f.dim[0] + f.dim[1] + f.dim[2], u = r.uni() * s; return u < f.dim[0] ? 0 : u < f.dim[0] + f.dim[1] ? 1 : 2; }
  std::string pickact() { double s = 0; for (auto& kv : f.w) s += kv.second; double u = r.uni() * s; for (auto& kv : f.w) { if (u < kv.second) return kv.first; u -= kv.second; } return "clip"; }
  void step(int task) {
    TaskState& t = ts[task]; int d = pickdim(), n = d + 2; std::string a = pickact();
    if (a == "d3" || a == "d2") { dep(task, a == "d3"); return; }
    if (a == "binit" || a == "bfree" || a == "bprint" || a == "brebuild") d = 1, n = 3;
    bool ro = a == "reduce" || a == "shift" || a == "good" || a == "print" || a == "center" || a == "ibox" || a == "vox" || a == "dep" || a == "binit" || a == "copy";
    if (a != "init" && a != "faces" && a != "orient" && a != "grid" && a != "gcheck" && t.live[d].empty() && (!ro || t.shared[d].empty())) a = "init";
    if (a == "init") init(task, d, anyslot());
    else if (a == "copy") { long s = src(t, d, true), q = anyslot(); if (q == s) q = (q + 1) % 5; add(task, nm(d, "copy"), {q, s}); mark(t, d, q); }
    else if (a == "clip") {
      int np = r.chance(0.1) ? (int)r.range(5, r.chance(0.15) ? 40 : 16) : r.chance(0.01) ? 0 : (int)r.range(1, 4); std::vector<double> v; for (int i = 0; i < np; ++i) { auto q = plane(d); v.insert(v.end(), q.begin(), q.end()); }
      if (d < 2 && r.chance(0.05) && np > 1) for (int j = 0; j <= n; ++j) v[(size_t)((n + 1) + j)] = v[(size_t)j];   // repeated plane
      add(task, nm(d, "clip"), {src(t, d, false)}, v);
    } else if (a == "clipv") { if (d == 2) { add(task, "4.clip", {src(t, d, false)}, plane(2)); return; } clipv(task, d, src(t, d, false)); }
    else if (a == "clipf") { if (d == 2) return; long k = (long)r.below(2); add(task, nm(d, "clipf"), {src(t, d, false), k}, k == 0 ? boxv(d) : simplexv(d)); }
    else if (a == "split") {
      if (d == 2) return; if (r.chance(0.04)) { burst(task, d); return; } long wide = r.chance(0.15) ? 14 : 6; int k = std::min<int>(r.chance(0.7) ? 1 : (int)r.range(2, wide / 2), (int)t.live[d].size());
      std::vector<long> in = t.live[d]; for (size_t i = 0; i < in.size(); ++i) std::swap(in[i], in[i + r.below(in.size() - i)]); in.resize((size_t)k);
      std::vector<long> iv{k}; for (long q : in) iv.push_back(q);
      std::vector<long> pool; for (long q = 0; q < wide; ++q) pool.push_back(q); for (size_t i = 0; i < pool.size(); ++i) std::swap(pool[i], pool[i + r.below(pool.size() - i)]);
      for (int i = 0; i < 2 * k; ++i) iv.push_back(pool[(size_t)i]);
      auto& lv = t.live[d]; for (long q : in) lv.erase(std::find(lv.begin(), lv.end(), q));
      for (int i = 0; i < 2 * k; ++i) mark(t, d, pool[(size_t)i]);
      auto pv = plane(d); long at = 0; if (r.chance(0.25)) { at = r.range(1, 40); if (r.chance(0.5)) { at = r.chance(0.7) ? 1000 + at : at; pv.push_back(graze()); } } iv.push_back(at);
      add(task, nm(d, "split"), iv, pv);
    } else if (a == "reduce") add(task, nm(d, "reduce"), {src(t, d, true), d == 2 ? 0 : r.chance(0.1) ? r.range(5, r.chance(0.25) ? 12 : 7) : order(d)});
    else if (a == "shift") { if (d == 2) return; std::vector<double> v; for (int j = 0; j < n; ++j) v.push_back(r.uni(-0.8, 0.8)); add(task, nm(d, "shift"), {src(t, d, true), r.chance(0.15) ? r.range(5, r.chance(0.25) ? 12 : 7) : order(d)}, v); }
    else if (a == "xf") xf(task, d, src(t, d, false));
    else if (a == "good" || a == "print" || a == "center") { if (a == "center" && d == 2) return; add(task, nm(d, a.c_str()), {src(t, d, true)}); }
    else if (a == "orient") add(task, nm(d, "orient"), {}, orientv(d));
    else if (a == "faces") {
      if (d == 2) return; long k = (long)r.below(d == 0 ? 2 : 3);
      if (k == 0) add(task, nm(d, "faces"), {0}, boxv(d)); else if (d == 1 && k == 1) { auto v = simplexv(1); if (r.chance(0.15)) { size_t a = (size_t)r.below(4), b = (size_t)r.below(4); for (size_t j = 0; j < 3; ++j) v[3 * a + j] = v[3 * b + j]; } add(task, nm(d, "faces"), {1}, v); }
      else { long dup = r.chance(0.15) ? (long)r.range(1, 9) : 0; if (d == 0) add(task, "2.faces", {1, 0, size(), (long)r.below(1u << 30), dup}); else add(task, "3.faces", {2, (long)r.below(4), size(), (long)r.below(1u << 30), dup}); }
    } else if (a == "ibox") add(task, nm(d, "ibox"), {src(t, d, true)}, cellsize(d));
    else if (a == "clamp") { std::vector<long> iv{src(t, d, false)}; std::vector<long> hi; for (int j = 0; j < n; ++j) { long lo = r.range(-4, 2); iv.push_back(lo); hi.push_back(lo + r.range(1, 5)); } iv.insert(iv.end(), hi.begin(), hi.end()); bool rel = r.chance(0.2); if (rel || r.chance(0.3)) iv.push_back(r.chance(0.7) ? (long)r.below(1u << (4 * n)) : 0); if (rel) { iv.push_back(1); for (int j = 0; j < 2 * n; ++j) iv[(size_t)(1 + j)] += 2; } add(task, nm(d, "clamp"), iv, cellsize(d)); }
    else if (a == "vox") { long pad = r.chance(0.3) ? (long)r.below(256) : 0; add(task, nm(d, "vox"), {src(t, d, true), order(d), pad, (long)r.below(2)}, cellsize(d)); }
    else if (a == "grid") grid(task, d);
    else if (a == "dep") { long g = (long)r.below(2); if (!t.grids[d][g]) grid(task, d, g); add(task, nm(d, "dep"), {src(t, d, true), g}); }
    else if (a == "gcheck") { for (long g = 0; g < 2; ++g) if (t.grids[d][g]) { add(task, nm(d, "gcheck"), {g}); break; } }
    else if (a == "binit") { long b = t.breps[0] ? 1 : 0; if (t.breps[b]) { add(task, "3.bfree", {b}); } add(task, "3.binit", {src(t, 1, true), b}); t.breps[b] = 1; }
    else if (a == "bfree" || a == "bprint" || a == "brebuild") { long b = r.below(2) ? 1 : 0; if (!t.breps[b]) b = 1 - b; if (!t.breps[b]) { step(task); return; } if (a == "bfree") { add(task, "3.bfree", {b}); t.breps[b] = 0; } else if (a == "bprint") add(task, "3.bprint", {b}); else { long q = 5; add(task, "3.brebuild", {b, q}); mark(t, 1, q); } }
  }
  void grid(int task, int d, long g = -1) {
    if (g < 0) g = (long)r.below(2); int n = d + 2; std::vector<long> iv{g, std::min(order(d), d == 1 ? 2 : 3)}, hi;
    for (int j = 0; j < n; ++j) { long lo = r.range(d == 2 ? -2 : -4, 0); iv.push_back(lo); hi.push_back(lo + r.range(1, d == 0 ? 8 : d == 1 ? 5 : 3)); }
    iv.insert(iv.end(), hi.begin(), hi.end()); iv.push_back((long)r.below(2));
    add(task, nm(d, "grid"), iv, cellsize(d)); ts[task].grids[d][g] = true;
  }
  void shared_setup(std::vector<int> tasks, bool all) {
    for (int d = 0; d < 3; ++d) {
      if (f.dim[d] <= 0 || !(all || r.chance(0.7))) continue;
      for (long k = 0; k < 2; ++k) {
        long s = 100 + k; init(-1, d, s);
        if (r.chance(0.5)) { auto q = plane(d); add(-1, nm(d, "clip"), {s}, q); }
        for (int t : tasks) ts[t].shared[d].push_back(s);
      }
    }
  }
  void free_breps(int task) { for (long b = 0; b < 2; ++b) if (ts[task].breps[b]) { add(task, "3.bfree", {b}); ts[task].breps[b] = 0; } }
  void sched(const char* kinds) {   // swarm over schedule shapes
    static const long gaps[6] = {5, 30, 200, 1500, 10000, 80000}; p.params["gap"] = gaps[r.below(6)];
    static const long hots[4] = {0, 15, 50, 100}; p.params["hot"] = hots[r.below(4)];
    p.params["maxev"] = r.chance(0.3) ? r.range(1, 4) : r.range(5, 60);
    for (const char* k = kinds; *k; ++k) p.params[std::string("w") + *k] = r.chance(0.2) ? 0 : *k == 'S' ? 10 : *k == 'N' ? 10 : (long)r.range(1, 5);
    if (strchr(kinds, 'S')) p.params["wS"] = 10;
    if (kinds[0] && !kinds[1]) p.params[std::string("w") + kinds[0]] = 10;
    if (r.chance(0.4)) p.params["pilot"] = r.chance(0.5) ? r.range(1, 3) : r.range(3, 16);
  }
  void garbage() { p.params["garbage"] = (long)r.below(1u << 30) + 1; p.params["gstyle"] = (long)r.below(6); p.params["scribble"] = r.chance(0.8); }
  // interleave the ops of different tasks in the list (keeps each task's order)
  void interleave() {
    std::vector<Op> head, tail; std::map<int, std::vector<Op>> by; for (auto& o : p.ops) if (o.task == -1) head.push_back(o); else if (o.task == -2) tail.push_back(o); else by[o.task].push_back(o);
    std::map<int, size_t> at; std::vector<int> left; for (auto& kv : by) left.push_back(kv.first);
    while (!left.empty()) { size_t k = r.below(left.size()); int t = left[k]; head.push_back(by[t][at[t]++]); if (at[t] == by[t].size()) left.erase(left.begin() + (long)k); }
    head.insert(head.end(), tail.begin(), tail.end()); p.ops = head;
  }
};

void swarm(Gen& g) {   // each run uses a random subset of the operations
  for (auto& kv : g.f.w) { double u = g.r.uni(); if (u < 0.3) kv.second = 0; else if (u > 0.8) kv.second *= 3; }
  g.f.w["init"] = std::max(g.f.w["init"], 1.0);
  if (g.r.chance(0.35)) {   // mostly one function, on many objects
    auto it = g.f.w.begin(); std::advance(it, (long)g.r.below(g.f.w.size())); double s = 0; for (auto& kv : g.f.w) s += kv.second; it->second = 0.8 * s;
    if (g.f.w["grid"] < 0.1 * s && it->first == "gcheck") g.f.w["grid"] = g.f.w["dep"] = 0.3 * s;
    if (it->first == "bfree" || it->first == "bprint" || it->first == "brebuild") g.f.w["binit"] = 0.5 * s;
    g.f.w["init"] = std::max(g.f.w["init"], 0.4 * s);
  }
  double u = g.r.uni(); if (u < 0.15) g.f.dim[1] = g.f.dim[2] = 0; else if (u < 0.4) g.f.dim[0] = g.f.dim[2] = 0; else if (u < 0.48) g.f.dim[0] = g.f.dim[1] = 0;
}
// chains that fill vertex buffers: many cuts of one large object
long fill_chain(Gen& g, int task, int d, int cap) {
  long s = g.anyslot(); TaskState& t = g.ts[task];
  if (d == 0) { int n = (int)g.r.range(std::max(3, cap - 6), cap + 3); g.add(task, "2.poly", {s, (long)g.r.below(3), n, (long)g.r.below(1u << 30)}); }
  else if (d == 1) { long k = (long)g.r.below(SH_NKINDS); int n = g.r.chance(0.6) ? (int)g.r.range(3, std::max(4, cap / 3)) : (int)g.r.range(3, std::max(4, cap / 2 + 2)); if (k == SH_BIPYR || k == SH_PYRAMID) n = std::max(3, n / 3); g.add(task, "3.poly", {s, k, n, (long)g.r.below(1u << 30)}); }
  else g.add(task, g.r.chance(0.6) ? "4.box" : "4.simplex", {s}, {}), g.p.ops.back().dv = g.p.ops.back().name == "4.box" ? g.boxv(2) : g.simplexv(2);
  g.mark(t, d, s);
  int n = (int)g.r.range(1, 6);
  for (int i = 0; i < n; ++i) {
    std::vector<double> v; int np = (int)g.r.range(1, 8);
    for (int q = 0; q < np; ++q) { auto u = g.unit(d + 2); u.push_back(g.r.uni(0.25, 0.75)); v.insert(v.end(), u.begin(), u.end()); }   // shaves corners
    double z = g.r.uni();
    if (z < 0.6 || d == 2) g.add(task, Gen::nm(d, "clip"), {s}, v);
    else if (z < 0.75) { long a = (s + 1) % 5, b = (s + 2) % 5; g.add(task, Gen::nm(d, "split"), {1, s, a, b, 0}, std::vector<double>(v.begin(), v.begin() + d + 3)); auto& lv = t.live[d]; lv.erase(std::find(lv.begin(), lv.end(), s)); g.mark(t, d, a); g.mark(t, d, b); s = a; }
    else if (z < 0.9) g.add(task, Gen::nm(d, "vox"), {s, g.order(d), 0, 1}, g.cellsize(d));
    else { std::vector<long> iv{s}, hi; for (int j = 0; j < d + 2; ++j) { long lo = g.r.range(-4, 0); iv.push_back(lo); hi.push_back(lo + g.r.range(1, 5)); } iv.insert(iv.end(), hi.begin(), hi.end()); g.add(task, Gen::nm(d, "clamp"), iv, g.cellsize(d)); }
  }
  return s;
}
int cap_of(int d) { return d == 0 ? D2::CAP : d == 1 ? D3::CAP : D4::CAP; }
}  // namespace

Plan generate(const std::string& prop, u64 seed, u64 idx) {
  Gen g(run_seed(prop, seed, idx));
  g.p.prop = prop; g.p.seed = run_seed(prop, seed, idx);
  Rng& r = g.r;
  auto mix = [&](int lo, int hi, int olo, int ohi, bool shared) {
    int nt = (int)r.range(lo, hi); std::vector<int> tasks; for (int t = 0; t < nt; ++t) tasks.push_back(t);
    if (shared && r.chance(0.6)) g.shared_setup(tasks, false);
    for (int t : tasks) { int n = (int)r.range(olo, ohi); for (int i = 0; i < n; ++i) g.step(t); g.free_breps(t); }
    g.interleave();
  };
  if (prop == "P01") { swarm(g); mix(2, 5, 2, 8, true); g.sched("SZ"); if (r.chance(0.3)) g.garbage(); }
  else if (prop == "P02") { swarm(g); mix(2, 4, 2, 8, true); g.sched("N"); g.p.params["maxnest"] = r.range(1, 4); if (r.chance(0.3)) g.garbage(); }
  else if (prop == "P22") {
    swarm(g); mix(1, 4, 2, 9, true); long how = (long)r.below(3); g.p.params["how"] = how; g.sched(how == 0 ? "SZ" : how == 1 ? "N" : "SNA"); g.p.params["threads"] = r.chance(0.6); if (r.chance(0.3)) g.garbage();
    for (int t = 0; t < 5; ++t) g.p.params["fp" + std::to_string(t)] = r.chance(0.3) ? 4 : (long)r.below(4) | (r.chance(0.6) ? 4 : 0) | (r.chance(0.2) ? 8 : 0) | (r.chance(0.2) ? 16 : 0);
  } else if (prop == "P23") {
    swarm(g); mix(1, 2, 1, 6, true); g.big_requests(); g.sched("SA"); g.p.params["threads"] = r.chance(0.5); g.p.params["maxev"] = r.range(0, 3); if (r.chance(0.3)) g.garbage();
  }
  else if (prop == "P03") { swarm(g); mix(1, 3, 2, 8, true); g.p.params["threads"] = r.chance(0.5); g.sched("SN"); }
  else if (prop == "P04") {
    swarm(g); g.f.maxsize = 24; g.f.big = 0.1; g.f.w["binit"] = g.f.w["bfree"] = g.f.w["bprint"] = 0; g.f.w["d3"] = g.f.w["d2"] = 0;
    int nt = (int)r.range(1, 2);
    for (int t = 0; t < nt; ++t) { int n = (int)r.range(1, 4); for (int i = 0; i < n; ++i) if (r.chance(0.6)) { int d = g.pickdim(); fill_chain(g, t, d, r.chance(0.06) ? std::min(cap_of(d), 520) : std::min(cap_of(d), 100)); } else for (int k = 0; k < 4; ++k) g.step(t); }
    g.interleave(); g.garbage(); if (r.chance(0.3)) { g.sched("SA"); g.p.params["threads"] = 1; }
  } else if (prop == "P05") {   // must not look at the capacities
    swarm(g); g.f.maxsize = 40; g.f.big = 0.12; int nt = (int)r.range(1, 2);
    for (int t = 0; t < nt; ++t) { int n = (int)r.range(2, 5); for (int i = 0; i < n; ++i) if (r.chance(0.4)) fill_chain(g, t, g.pickdim(), r.chance(0.1) ? (int)r.range(100, 240) : (int)r.range(12, 40)); else for (int k = 0; k < 4; ++k) g.step(t); }
    g.interleave();
  } else if (prop == "P06" || prop == "P07") {
    g.f.dim[0] = g.f.dim[2] = 0;
    g.f.only({"init", "clip", "clipv", "clipf", "split", "xf", "copy", "binit", "bfree", "bprint", "brebuild"}); g.f.w["binit"] = 5; g.f.w["bfree"] = 2; g.f.w["brebuild"] = prop == "P07" ? 2 : 0.3; g.f.w["copy"] = 0.5;
    if (r.chance(0.3)) g.f.w["clipv"] = 0; g.f.big = 0.08;
    int nt = (int)r.range(1, 3); std::vector<int> tasks; for (int t = 0; t < nt; ++t) tasks.push_back(t);
    for (int t : tasks) { int n = (int)r.range(3, 10); for (int i = 0; i < n; ++i) g.step(t); if (prop == "P06" || r.chance(0.7)) g.free_breps(t); }
    g.interleave(); g.garbage();
    if (prop == "P06") {
      std::vector<Op> out; // give every conversion a fault-free second attempt
      for (auto& o : g.p.ops) { out.push_back(o); if (o.name == "3.binit" && r.chance(0.8)) { double u = r.uni(); g.p.evs.push_back(Ev{'M', o.id, u < 0.35 ? r.below(4) : u < 0.8 ? r.below(14) : r.below(60), r.chance(0.3) ? 1 : 0}); Op again = o; again.id = g.nextid++; out.push_back(again); } }
      g.p.ops = out;
    }
    if (r.chance(0.4)) { g.sched(prop == "P06" ? "SA" : "S"); g.p.params["threads"] = 1; }
  } else if (prop == "P08") {
    swarm(g); mix(1, 3, 2, 9, true); g.garbage();
    int n = (int)r.range(2, 10); for (int i = 0; i < n; ++i) g.step(90);   // noise: calls only one of the executions makes
    g.p.params["perm"] = (long)r.below(1u << 30);
  } else if (prop == "P09") {
    swarm(g); mix(1, 3, 3, 9, true);
    if (r.chance(0.6)) {   // clients redo what may have been cut short, on a fresh object where the old one is lost
      std::vector<Op> out; std::map<std::pair<int, std::string>, Op> born; double pr = r.uni(0.15, 0.6);
      for (auto& o : g.p.ops) {
        out.push_back(o); if (o.task < 0 || out.size() > 40) continue;
        std::string fn = o.name.substr(o.name.find('.') + 1), dim = o.name.substr(0, o.name.find('.'));
        if (fn == "box" || fn == "simplex" || fn == "poly") born[{o.task, dim + ":" + std::to_string(o.iv[0])}] = o;
        if (fn == "split" || fn == "binit" || fn == "bfree" || fn == "grid" || fn == "copy" || fn == "brebuild" || !r.chance(pr)) continue;
        bool mod = fn == "clip" || fn == "clipv" || fn == "clipf" || fn == "xf" || fn == "clamp";
        if (mod) { auto it = born.find({o.task, dim + ":" + std::to_string(o.iv[0])}); if (it == born.end()) continue; Op q = it->second; q.id = g.nextid++; out.push_back(q); }
        Op q = o; q.id = g.nextid++; out.push_back(q);
      }
      g.p.ops = out;
    }
    g.sched("A"); g.p.params["maxev"] = r.range(1, 4); if (r.chance(0.4)) g.garbage();
  }
  else if (prop == "P16" && r.chance(0.012)) {   // large graphs, few of them
    g.p.params["goodbig"] = 1; g.p.params["scribble"] = 1; g.garbage(); int d = g.r.chance(0.75) ? 1 : g.r.chance(0.6) ? 2 : 0; long s = 1;
    if (d == 1) { long k = (long)r.below(SH_NKINDS); int n = (int)r.range(20, k == SH_BIPYR || k == SH_PYRAMID ? 44 : 132); g.add(0, "3.poly", {s, k, n, (long)r.below(1u << 30)}); }
    else if (d == 0) g.add(0, "2.poly", {s, (long)r.below(3), (long)r.range(100, 500), (long)r.below(1u << 30)});
    else { g.add(0, r.chance(0.7) ? "4.box" : "4.simplex", {s}, {}), g.p.ops.back().dv = g.p.ops.back().name == "4.box" ? g.boxv(2) : g.simplexv(2); for (int i = (int)r.range(2, 8); i > 0; --i) { g.add(0, "4.clipv", {s, (long)r.below(64)}, g.plane(2)); g.p.ops.back().name = "4.clip"; g.p.ops.back().iv = {s}; } }
    g.mark(g.ts[0], d, s); if (d == 1 && r.chance(0.5)) g.add(0, "3.clip", {s}, g.plane(1));
    if (r.chance(0.3)) g.add(0, Gen::nm(d, "remains"), {s});
    for (int i = (int)r.range(1, 2); i > 0; --i) { g.add(0, Gen::nm(d, "torn"), {10, s, r.chance(0.6) ? r.range(5, 6) : (long)r.below(9), (long)r.below(1u << 30)}); g.add(0, Gen::nm(d, "remains"), {10}); }
    g.sched("A"); g.p.params["maxev"] = r.range(0, 2);
  }
  else if (prop == "P16") {
    g.f.only({"init", "copy", "clip", "clipv", "clipf", "split", "xf", "clamp", "good", "binit"}); g.f.w["binit"] = 0; swarm(g); g.f.w["clip"] = std::max(2.0, g.f.w["clip"]); g.f.maxsize = 30; g.f.dim[0] = 1; g.f.dim[1] = 3; g.f.dim[2] = 0.7; { double u = r.uni(); if (u < 0.2) g.f.dim[1] = g.f.dim[2] = 0; else if (u < 0.5) g.f.dim[0] = g.f.dim[2] = 0; else if (u < 0.6) g.f.dim[0] = g.f.dim[1] = 0; } g.f.huge = 0.004;
    mix(1, 3, 2, 8, false); g.p.params["scribble"] = 1; g.garbage();
    std::vector<Op> out;   // after each step, what it may have left behind is looked at; copies of it get damaged
    for (auto& o : g.p.ops) {
      out.push_back(o); std::string fn = o.name.substr(o.name.find('.') + 1), dim = o.name.substr(0, o.name.find('.')); if (o.name[0] == 'd' || o.iv.empty() || fn == "faces") continue;
      auto put = [&](const char* nm, std::vector<long> iv) { Op q; q.id = g.nextid++; q.task = o.task; q.name = dim + "." + nm; q.iv = iv; out.push_back(q); };
      long s = o.iv[0]; if (fn == "split") { for (size_t i = 1; i <= 3 * (size_t)o.iv[0] && i < o.iv.size(); ++i) if (r.chance(0.3)) put("remains", {o.iv[i]}); continue; }
      if (r.chance(0.7)) put("remains", {s});
      while (r.chance(0.45)) { put("torn", {10, s, (long)r.below(9), (long)r.below(1u << 30)}); put("remains", {10}); }
    }
    g.p.ops = out; g.sched("SA"); g.p.params["threads"] = r.chance(0.3); g.p.params["maxev"] = r.range(1, 8);
  } else if (prop == "P21") {
    swarm(g); mix(1, 2, 3, 12, true);
    std::vector<Op> out; for (auto& o : g.p.ops) { out.push_back(o); if (o.task >= 0 && r.chance(0.3)) { Op q; q.id = g.nextid++; q.task = o.task; q.name = "0.ckpt"; q.iv = {r.chance(0.4)}; out.push_back(q); } }
    g.p.ops = out; g.sched("A"); g.p.params["wA"] = 10; g.p.params["maxev"] = r.range(1, 6); if (r.chance(0.6)) g.garbage();
  }
  else if (prop == "P10") {
    swarm(g); g.f.w["d3"] = g.f.w["d2"] = 0; for (auto k : {"faces", "orient", "print", "bprint", "good", "center"}) g.f.w[k] *= 0.3; g.f.w["clip"] = std::max(2.0, g.f.w["clip"]); g.f.reflect = 0.05;
    mix(1, 4, 3, 12, true); g.sched(r.chance(0.5) ? "SA" : "SNA"); g.p.params["threads"] = r.chance(0.5); if (r.chance(0.5)) g.garbage();
  } else if (prop == "P17") {
    // replicas of one intersection: every worker starts from one of the shapes and is sent clip requests built by the face helpers
    int d = r.chance(0.35) ? 0 : 1, k = (int)r.range(2, d == 0 ? 5 : 4), nt = (int)r.range(1, 4); swarm(g);
    struct Req { long kind; std::vector<double> dv; long sk, n, seed; }; std::vector<Req> q; static const long conv[8] = {SH_PRISM, SH_PYRAMID, SH_BIPYR, SH_BARREL, SH_GLOBE, SH_ANTIPRISM, SH_SPLITBOX, SH_ICOSA};
    for (int i = 0; i < k; ++i) { double u = r.uni(); Req c; c.kind = u < 0.3 ? 0 : u < 0.6 ? 1 : 2; if (c.kind == 0) c.dv = g.boxv(d); else if (c.kind == 1) c.dv = g.simplexv(d); c.sk = d == 0 ? 0 : conv[r.below(r.chance(0.2) ? 8 : 7)]; c.n = r.chance(0.08) ? r.range(10, 70) : r.range(3, d == 0 ? 16 : 9); c.seed = (long)r.below(1u << 30);
      if (i && r.chance(0.15) && q.back().kind < 2) { c = q[r.below((u64)i)]; double by = std::pow(10.0, r.uni(-9, -2)); for (double& z : c.dv) z += by * r.uni(-1, 1); }   // nearly a region asked for before
      q.push_back(c); }
    for (int t = 0; t < nt; ++t) {
      const Req& b = q[r.below((u64)k)]; size_t own = (size_t)(&b - &q[0]);
      if (b.kind == 0) g.add(t, Gen::nm(d, "box"), {0}, b.dv); else if (b.kind == 1) g.add(t, Gen::nm(d, "simplex"), {0}, b.dv); else g.add(t, Gen::nm(d, "poly"), {0, b.sk, b.n, b.seed});
      g.add(t, Gen::nm(d, "copy"), {1, 0});
      std::vector<size_t> del; for (size_t i = 0; i < q.size(); ++i) { if (i != own || r.chance(0.25)) del.push_back(i); if (r.chance(0.2)) del.push_back(i); }
      for (size_t i = 0; i < del.size(); ++i) std::swap(del[i], del[i + r.below(del.size() - i)]);
      for (size_t i : del) {
        const Req& c = q[i]; long m = 0, parts = 1; if (r.chance(0.3)) { m = (long)r.below(1u << 20); parts = 2; }
        for (long w = 0; w < parts; ++w) {
          if (parts == 2 && w == 1) m = ~m & 0xfffff;
          if (parts == 2 && !m) continue;
          int tries = r.chance(0.35) ? 2 : 1; long hold = r.chance(0.25);
          for (int a = 0; a < tries; ++a) { g.add(t, Gen::nm(d, "clipf"), {0, c.kind, m, c.sk, c.n, c.seed, hold}, c.dv); if (hold) break; g.add(t, Gen::nm(d, "copy"), {0, 1, 1}); }
          if (!hold) g.add(t, Gen::nm(d, "copy"), {1, 0});
        }
        if (r.chance(0.2)) { if (r.chance(0.4)) g.add(t, Gen::nm(r.chance(0.3) ? 2 : d, "orient"), {}, {}); else if (c.kind < 2 && d == 1) g.add(t, Gen::nm(d, "faces"), {c.kind}, c.dv); else g.add(t, Gen::nm(d, "reduce"), {0, g.order(d)}); if (g.p.ops.back().dv.empty() && g.p.ops.back().name.find("orient") != std::string::npos) g.p.ops.back().dv = g.orientv(g.p.ops.back().name[0] - '2'); }
      }
    }
    g.interleave(); g.sched(r.chance(0.5) ? "SA" : "SNA"); g.p.params["threads"] = r.chance(0.5); g.p.params["maxev"] = r.range(1, 12); if (r.chance(0.4)) g.garbage();
  } else if (prop == "P18") {
    // objects carried from place to place, worked on wherever they are, measured again and again
    int nt = (int)r.range(1, 4); swarm(g); double reach = r.uni(0.5, 6);
    for (int t = 0; t < nt; ++t) {
      int d = r.chance(0.25) ? 0 : 1, n = d + 2; long s = 0; g.init(t, d, s); std::vector<double> pos((size_t)n, 0.0); bool home = true;
      if (r.chance(0.4)) { double k = std::pow(10.0, r.uni(-3, 0.5)); g.add(t, Gen::nm(d, "xf"), {s, 2, 0, 0}, std::vector<double>((size_t)n, k)); for (double& q : pos) q = 0; }
      int steps = (int)r.range(4, 12);
      for (int i = 0; i < steps; ++i) {
        double u = r.uni();
        auto shifted = [&](std::vector<double> pl) { for (int j = 0; j < n; ++j) pl[(size_t)n] -= pl[(size_t)j] * pos[(size_t)j]; return pl; };
        if (u < 0.3) { std::vector<double> v; home = r.chance(0.25); double len = std::pow(10.0, r.uni(0, reach)); for (int j = 0; j < n; ++j) { double to = home ? 0 : len * r.uni(-1, 1); if (!home && r.chance(0.2)) to = std::floor(to); v.push_back(to - pos[(size_t)j]); pos[(size_t)j] += v.back(); } g.add(t, Gen::nm(d, "xf"), {s, 0, 0, 0}, v); }
        else if (u < 0.42) g.add(t, Gen::nm(d, "clip"), {s}, shifted(g.plane(d)));
        else if (u < 0.52) g.clipv(t, d, s);
        else if (u < 0.6) { g.add(t, Gen::nm(d, "split"), {1, s, 1, 2, 0}, shifted(g.plane(d))); g.add(t, Gen::nm(d, "reduce"), {2, g.order(d)}); s = 0; g.add(t, Gen::nm(d, "copy"), {0, 1}); }
        else if (u < 0.68) g.add(t, Gen::nm(d, "vox"), {s, std::min((long)g.order(d), d == 1 ? 2L : 3L), r.chance(0.2) ? (long)r.below(256) : 0, (long)r.below(2)}, g.cellsize(d));
        else if (u < 0.73) g.add(t, Gen::nm(d, "center"), {s});
        else if (u < 0.8 && home) g.xf(t, d, s);
        else if (u < 0.87) { g.add(t, Gen::nm(d, "copy"), {3, 0}); }
        else if (u < 0.93) g.add(t, Gen::nm(d, "copy"), {0, 3, 1});
        g.add(t, Gen::nm(d, "reduce"), {s, g.order(d)});
      }
    }
    g.interleave(); g.sched(r.chance(0.5) ? "SA" : "SNA"); g.p.params["threads"] = r.chance(0.5); if (r.chance(0.4)) g.garbage();
  } else if (prop == "P19") {
    swarm(g); g.f.only({"init", "copy", "clip", "clipv", "clipf", "split", "xf", "ibox", "clamp", "vox", "dep"}); g.f.w["ibox"] = 6; g.f.w["clamp"] = 3; g.f.w["vox"] = 0.5; g.f.w["dep"] = 0.2; g.f.w["xf"] = 3; g.f.reflect = 0.05;
    mix(1, 4, 3, 14, true);
    { std::vector<Op> out; for (auto& o : g.p.ops) { std::string fn = o.name.substr(o.name.find('.') + 1); if ((fn == "ibox" || fn == "clamp" || fn == "vox") && o.task >= 0 && o.iv[0] < 100 && r.chance(0.15)) {
        Op q; q.id = g.nextid++; q.task = o.task; q.name = o.name.substr(0, o.name.find('.')) + ".xf"; q.iv = {o.iv[0], 0, 0, 0}; double len = std::pow(10.0, r.uni(1, 6)); for (size_t j = 0; j < o.dv.size(); ++j) q.dv.push_back(len * r.uni(-1, 1)); out.push_back(q); }
      out.push_back(o); } g.p.ops = out; }
    // sides at or next to a grid line just before the box is taken
    { std::vector<Op> out; for (auto& o : g.p.ops) { std::string fn = o.name.substr(o.name.find('.') + 1); if ((fn == "ibox" || fn == "clamp") && o.task >= 0 && o.iv[0] < 100 && r.chance(0.4)) {
        int n = (int)o.dv.size(); Op q; q.id = g.nextid++; q.task = o.task; q.name = o.name.substr(0, o.name.find('.')) + ".clip"; q.iv = {o.iv[0]}; int k = (int)r.range(1, 2);
        for (int i = 0; i < k; ++i) { int ax = (int)r.below((u64)n); double sg = r.chance(0.5) ? 1 : -1, at = o.dv[(size_t)ax] * (double)r.range(-2, 2); if (r.chance(0.7)) at += (r.chance(0.5) ? 1 : -1) * o.dv[(size_t)ax] * std::pow(10.0, r.uni(-14, -3)); for (int j = 0; j < n; ++j) q.dv.push_back(j == ax ? sg : 0); q.dv.push_back(-sg * at); }
        out.push_back(q); }
      out.push_back(o); } g.p.ops = out; } g.sched(r.chance(0.5) ? "SA" : "SNA"); g.p.params["threads"] = r.chance(0.5); if (r.chance(0.4)) g.garbage();
  } else if (prop == "P11") {
    int d = (int)(r.uni() < 0.35 ? 0 : r.uni() < 0.85 ? 1 : 2), n = d + 2; long s = 100; g.f.reflect = 0.06;
    g.f.big = 0.04; g.f.maxsize = 24; g.f.dim[0] = d == 0; g.f.dim[1] = d == 1; g.f.dim[2] = d == 2;
    g.init(-1, d, s); int nc = (int)r.below(4); for (int i = 0; i < nc; ++i) g.add(-1, Gen::nm(d, "clip"), {s}, g.plane(d)); if (r.chance(0.4)) g.xf(-1, d, s);
    auto cs = g.cellsize(d); double m = 1e9; for (double q : cs) m = std::min(m, q); long K = (long)std::ceil(2.2 / m) + 1; long lim = d == 0 ? 16 : d == 1 ? 5 : 3; K = std::min(K, lim);
    for (double& q : cs) if (q * (double)K < 2.0) q = 2.0 / (double)K;
    long ord = std::min(g.order(d), d == 1 ? 2 : 3); if (d == 1 && K <= 4 && r.chance(0.08)) ord = r.range(3, 5); std::vector<std::vector<long>> cuts;
    for (int j = 0; j < n; ++j) { std::vector<long> c{-K, K}; int k = (int)r.range(0, d == 2 ? 1 : 2); for (int i = 0; i < k; ++i) c.push_back(r.range(-K + 1, K - 1)); std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); cuts.push_back(c); }
    std::vector<std::vector<long>> tiles; std::vector<size_t> ix((size_t)n, 0);
    for (;;) { std::vector<long> iv{s, ord}, hi; for (int j = 0; j < n; ++j) { iv.push_back(cuts[(size_t)j][ix[(size_t)j]]); hi.push_back(cuts[(size_t)j][ix[(size_t)j] + 1]); } iv.insert(iv.end(), hi.begin(), hi.end()); tiles.push_back(iv);
      int j = 0; while (j < n && ++ix[(size_t)j] + 1 >= cuts[(size_t)j].size()) ix[(size_t)j++] = 0; if (j == n) break; }
    int nt = (int)r.range(1, 4); std::vector<std::pair<long, long>> jobs; for (size_t i = 0; i < tiles.size(); ++i) { jobs.push_back({(long)i, 0}); if (r.chance(0.4)) jobs.push_back({(long)i, 0}); if (r.chance(0.25)) jobs.push_back({(long)i, 1}); }
    for (size_t i = 0; i < jobs.size(); ++i) std::swap(jobs[i], jobs[i + r.below(jobs.size() - i)]);
    for (auto& j : jobs) { auto iv = tiles[(size_t)j.first]; iv.push_back(j.first); iv.push_back(j.second); g.add((int)r.below((u64)nt), Gen::nm(d, "tile"), iv, cs); }
    for (size_t i = 0; i < tiles.size(); ++i) { auto iv = tiles[i]; iv.push_back((long)i); iv.push_back(0); g.add(-2, Gen::nm(d, "tile"), iv, cs); }
    g.add(-2, Gen::nm(d, "assemble"), {s, ord, K, (long)tiles.size()}, cs);
    g.sched("SZA"); g.p.params["threads"] = 1; if (r.chance(0.5)) g.garbage();
  } else if (prop == "P12") {
    double u = r.uni(); if (u < 0.3) g.f.dim[1] = g.f.dim[2] = 0; else if (u < 0.75) g.f.dim[0] = g.f.dim[2] = 0; else if (u < 0.85) g.f.dim[0] = g.f.dim[1] = 0;
    g.f.only({"init", "copy", "clip", "clipv", "split", "xf", "grid", "dep", "gcheck", "vox"}); g.f.w["dep"] = 6; g.f.w["grid"] = 0.3; g.f.w["clip"] = 2; g.f.w["split"] = 2; g.f.big = 0.03; g.f.reflect = 0.06;
    int nt = (int)r.range(1, 3); bool sh = r.chance(0.5); std::vector<int> tasks; for (int t = 0; t < nt; ++t) tasks.push_back(t); if (sh) g.shared_setup(tasks, false);
    for (int t : tasks) { int n = (int)r.range(4, 12); for (int i = 0; i < n; ++i) g.step(t);
      for (int d = 0; d < 3; ++d) for (long q = 0; q < 2; ++q) if (g.ts[t].grids[d][q]) g.add(t, Gen::nm(d, "gcheck"), {q});
      if (r.chance(0.5)) { // fragments of one object into one grid, the whole into another
        int d = g.f.dim[1] > 0 ? 1 : 0; if (g.f.dim[d] > 0) { long s = 0; g.init(t, d, s); long go = g.nextid; g.grid(t, d, 0); Op gop = g.p.ops.back(); gop.id = g.nextid++; gop.iv[0] = 1; gop.iv.back() = g.p.ops.back().iv.back() = 1; g.p.ops.push_back(gop); (void)go; g.ts[t].grids[d][1] = true;
          g.add(t, Gen::nm(d, "dep"), {s, 0}); g.add(t, Gen::nm(d, "split"), {1, s, 1, 2, 0}, g.plane(d)); g.add(t, Gen::nm(d, "split"), {1, 1, 3, 4, 0}, g.plane(d));
          for (long q : {4L, 2L, 3L}) g.add(t, Gen::nm(d, "dep"), {q, 1}); g.add(t, Gen::nm(d, "gcheck"), {0}); g.add(t, Gen::nm(d, "gcheck"), {1}); } } }
    g.interleave(); g.sched("SN"); g.p.params["threads"] = r.chance(0.5); if (r.chance(0.5)) g.garbage();
  } else if (prop == "P13") {
    swarm(g); for (auto k : {"print", "bprint", "binit", "good", "clip"}) g.f.w[k] = 3; g.f.w["d3"] = g.f.w["d2"] = 0; g.f.w["vox"] *= 0.5; g.f.w["dep"] *= 0.3;
    mix(1, 2, 3, 10, false); if (r.chance(0.4)) { int d = g.pickdim(); bool wide = r.chance(0.25); long q = fill_chain(g, 0, d, wide ? std::min(cap_of(d), 240) : (int)r.range(12, 40)); g.add(0, Gen::nm(d, "print"), {q}); }
    g.p.params["buf"] = (long)r.below(12); static const long pf[5] = {2, 10, 30, 60, 100}; g.p.params["pfault"] = pf[r.below(5)]; if (r.chance(0.5)) g.p.params["heal"] = r.range(1, 40); if (r.chance(0.3)) g.garbage();
  } else if (prop == "P14") {
    swarm(g); g.f.degen = r.chance(0.7) ? 1.0 : 0.5; g.f.w["clipv"] = 6; g.f.w["good"] = 1.5; g.f.w["clamp"] = 2; g.f.w["vox"] = 2; if (r.chance(0.4)) { g.f.w["print"] = 2; g.f.w["bprint"] = 3; g.f.w["binit"] = 3; }
    if (r.chance(0.4)) { g.f.maxsize = 150; g.f.big = 0.2; }
    int nt = (int)r.range(1, 3); for (int t = 0; t < nt; ++t) { int n = (int)r.range(2, 10); for (int i = 0; i < n; ++i) if (r.chance(0.12)) { int d = g.pickdim(); fill_chain(g, t, d, std::min(cap_of(d), 120)); } else g.step(t); g.free_breps(t); }
    g.interleave(); g.sched("SNZA"); g.p.params["threads"] = r.chance(0.5); g.garbage(); g.p.params["buf"] = (long)r.below(12); g.p.params["pfault"] = r.chance(0.5) ? 30 : 0;
    for (auto& o : g.p.ops) if (o.name == "3.binit" && r.chance(0.4)) g.p.evs.push_back(Ev{'M', o.id, r.below(20), r.chance(0.5) ? 1 : 0});
  } else if (prop == "P15") {
    g.f.only({"d3", "d2"}); g.f.retry = true; g.f.w["d3"] = 1; g.f.w["d2"] = 1; mix(1, 3, 1, 5, false); g.sched("SNA"); g.p.params["threads"] = r.chance(0.5); g.garbage();
    // every call is made again at the end, undisturbed
    std::vector<Op> again; for (auto o : g.p.ops) { o.id = g.nextid++; o.task = -2; again.push_back(o); } g.p.ops.insert(g.p.ops.end(), again.begin(), again.end()); g.p.params["again"] = (long)again.size();
  } else fatal("unknown property %s", prop.c_str());
  if (r.chance(0.06)) g.p.params["unit"] = r.chance(0.5) ? r.range(-45, -10) : r.range(-12, 30);   // everything tiny, small or large
  if (g.p.ops.empty()) g.add(0, "3.box", {0}, {0, 0, 0, 1, 1, 1});
  return g.p;
}
