// The simulated world: objects of the clients (polytopes in guarded memory, boundaries, grids), their
// reference regions, and the execution of one operation of a plan against the real library.
#pragma once
#include <memory>
#include <set>
#include "dims.h"
#include "shapes.h"

enum {
  CK_GRAPH = 1,    // well-formed vertex graphs
  CK_REF = 2,      // moments against the reference region
  CK_MUST = 4,     // calls that fit must succeed
  CK_BREP = 8,     // boundary descriptions
  CK_RO = 16,      // inputs live in read-only pages while the call runs
  CK_HEAP = 32,    // atomicity and leak freedom of allocations
  CK_TEXT = 64,    // printed text
  CK_CELLS = 128,  // grids cell by cell
  CK_SIDE = 256,   // vertices on the right side of clip planes
  CK_GOOD = 512,   // verdicts of the validity check
  CK_FACES = 1024, // planes and measures from the helpers
  CK_IBOX = 2048,  // index boxes
  CK_FAR = 4096    // moments to within a small multiple of machine precision, wherever the object is
};

struct Res { int state = 0; int status = 0; int calls = 0; u64 dig = 0, steps = 0; std::string text; };   // state: 0 skipped, 1 ran, 2 abandoned

// ---------------------------------------------------------------- guarded argument buffers
struct BufPool {
  std::map<size_t, std::map<char*, Guarded>> freel;   // by address: which buffer comes next depends on this execution alone
  u64 salt = 0, drawn = 0;   // salt: objects lie at addresses of changing alignment
  Guarded get(size_t size, size_t align) {
    size_t skew = salt ? (size_t)(mix64(salt + ++drawn) & 7) * 8 / align * align : 0;
    size_t pages = (std::max<size_t>(size, 1) + skew + 4095) / 4096;
    auto& v = freel[pages];
    Guarded g;
    if (v.empty()) g = guarded_alloc(pages * 4096); else { g = v.begin()->second; v.erase(v.begin()); }
    guarded_place(g, std::max<size_t>(size, align), align);
    g.obj -= skew; g.tail = skew; memset(g.obj + g.size, 0xC7, skew);
    memset(g.obj, 0, g.size);                           // nothing of earlier uses, so that one seed is one execution
    memset(g.base, 0xC7, (size_t)(g.obj - g.base));     // the slack in front must come back as it is
    return g;
  }
  static void verify(const Guarded& g) { for (char* q = g.base; q < g.obj; ++q) if (*q != (char)0xC7) violate("memory-fault", "store in front of an object of %zu bytes, offset %ld", g.size, (long)(q - g.obj));
    for (char* q = g.obj + g.size; q < g.obj + g.size + g.tail; ++q) if (*q != (char)0xC7) violate("memory-fault", "store behind an object of %zu bytes, offset %ld", g.size, (long)(q - g.obj)); }
  void put(const Guarded& g) { verify(g); freel[g.pages][g.base] = g; }
};
extern BufPool pool;
extern unsigned g_checks;

template <class T> struct Arg {
  Guarded g; T* p; size_t n; bool ro = false;
  explicit Arg(size_t cnt) : n(cnt) { g = pool.get(cnt * sizeof(T), alignof(T)); p = (T*)g.obj; }
  Arg(const T* src, size_t cnt) : Arg(cnt) { memcpy((void*)p, (const void*)src, cnt * sizeof(T)); }
  Arg(const Arg&) = delete;
  void protect(const char* what) { if (g_checks & CK_RO) { ro = true; guarded_protect(g, true); ro_region(g.base, g.pages * 4096, what, true); sim.st.ro++; } }
  void unprotect() { if (ro) { guarded_protect(g, false); ro_region(g.base, 0, "", false); ro = false; } }
  ~Arg() { unprotect(); pool.put(g); }
};

enum { EMPTY = 0, LIVE = 1, DEAD = 2 };
template <class D> struct Slot {
  Guarded g; bool have = false;
  int state = EMPTY, prot = 0;
  Ref<D::N> ref; bool refok = false, convex = false, isbox = false, generic = true;
  typename D::Poly* p() { return (typename D::Poly*)g.obj; }
};
struct BrepSlot { Guarded g; bool have = false, taint = false; int state = EMPTY; int op = -1; int src = -1; bool odd = false;
  r3d_brep** pp() { return (r3d_brep**)g.obj; } int* pn() { return (int*)(g.obj + sizeof(void*)); } };
template <class D> struct Grid {
  int state = EMPTY; Guarded g; size_t n = 0; int order = 0; typename D::DV lo, hi; typename D::RV d;
  std::vector<double> base; std::vector<ld> want; ld scale = 0, tol = 0; bool ok = true; int deps = 0;
  double* p() { return (double*)g.obj; }
};
template <class D> struct Tile { bool done = false; long no = 0; typename D::DV lo, hi; std::vector<double> v; int order; bool empty; u64 dig; };

struct World {
  std::map<long, Slot<D2>> s2; std::map<long, Slot<D3>> s3; std::map<long, Slot<D4>> s4;
  std::map<long, BrepSlot> br;
  std::map<long, Grid<D2>> g2; std::map<long, Grid<D3>> g3; std::map<long, Grid<D4>> g4;
  std::map<int, Tile<D2>> t2; std::map<int, Tile<D3>> t3; std::map<int, Tile<D4>> t4;
  std::map<std::vector<long>, Guarded> depbuf;   // buffers of the deprecated interface, kept between calls
  std::map<int, Res> res;
  std::map<std::pair<int, long>, std::pair<std::vector<r2d_plane>, std::vector<RefPlane<2>>>> pend2;   // planes held back for a later clip
  std::map<std::pair<int, long>, std::pair<std::vector<r3d_plane>, std::vector<RefPlane<3>>>> pend3;
  std::map<int, std::vector<double>> outv;   // values returned by an operation (moments, grids)
  bool refs = false, goodbig = false, scribble = false, keepvals = false, taint = false, healthy = true;
  u64 gseed = 0;
  const std::map<int, int>* stopat = nullptr;   // operations to cut short before their k-th call (never made)
  ~World();
  template <class D> std::map<long, Slot<D>>& slots();
  template <class D> std::map<long, Grid<D>>& grids();
  template <class D> std::map<int, Tile<D>>& tiles();
  static long key(int task, long id) { return id >= 100 && id < 200 ? id : 1000 * (task + 2) + id; }
  template <class D> Slot<D>& slot(int task, long id) {
    Slot<D>& s = slots<D>()[key(task, id)];
    if (!s.have) { s.g = pool.get(sizeof(typename D::Poly), alignof(typename D::Poly)); s.have = true; if (scribble) fill_garbage(s.g.obj, s.g.size, gseed ^ mix64((u64)key(task, id))); }
    return s;
  }
};
template <> inline std::map<long, Slot<D2>>& World::slots<D2>() { return s2; }
template <> inline std::map<long, Slot<D3>>& World::slots<D3>() { return s3; }
template <> inline std::map<long, Slot<D4>>& World::slots<D4>() { return s4; }
template <> inline std::map<long, Grid<D2>>& World::grids<D2>() { return g2; }
template <> inline std::map<long, Grid<D3>>& World::grids<D3>() { return g3; }
template <> inline std::map<long, Grid<D4>>& World::grids<D4>() { return g4; }
template <> inline std::map<int, Tile<D2>>& World::tiles<D2>() { return t2; }
template <> inline std::map<int, Tile<D3>>& World::tiles<D3>() { return t3; }
template <> inline std::map<int, Tile<D4>>& World::tiles<D4>() { return t4; }

extern World* W;
// process crash and restart: what was saved survives, everything else is lost, and everything reloaded lies elsewhere
struct Image;
std::shared_ptr<Image> take_image();                      // null while a boundary description is held
void restart_from(const std::shared_ptr<Image>& im, u64 salt);
extern int cur_attempt;                                   // restarts so far; events address operation id + ATTEMPT * attempt
enum { ATTEMPT = 100000 };
void exec_op(TaskCtl* c, const Op& op);
u64 final_digest();
std::string ratios();

static inline void hd(Hash& h, double d) { if (d != d) h.add(0x7ff8); else if (d == 0) h.add(0); else h.addd(d); }
