// Deterministic simulation core: seeded choices, fibers standing in for caller threads, yield points
// delivered by compiler instrumentation of the library, and the seams for heap, output streams and
// leftover memory.  Nothing in here depends on the vertex capacities.
#pragma once
#include <csetjmp>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <array>
#include <algorithm>
#include <map>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- randomness
static inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }  // inclusive
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  Rng fork(u64 tag) { return Rng(mix64(next() ^ mix64(tag))); }
};

struct Hash {
  u64 h = 0x1234567ull;
  void add(u64 v) { h = mix64(h ^ v) + 0x632be59bd9b4e019ull * (h >> 7); }
  void addd(double d) { u64 v; memcpy(&v, &d, 8); add(v); }
  void adds(const std::string& s) { add(s.size()); for (unsigned char c : s) add(c); }
};

// ---------------------------------------------------------------- plans
struct Op {
  int id = 0, task = 0;
  std::string name;
  std::vector<long> iv;
  std::vector<double> dv;
};
// Schedule events and faults, always addressed by operation id so that dropping others keeps them valid.
//  S op step target : at that library step of op, switch to task `target`
//  Z op step        : stall the task at that step until every other task has finished
//  A op step        : abandon op at that step
//  N op step target : run the next complete operation of task `target` nested inside op
//  M op k           : the k-th allocation made by op fails
//  W k kind         : the k-th write on the output streams: 0 full, 1 short, 2 error, 3 would block; +8: and every later one
struct Ev { char kind; int op; u64 a; long b; };
struct Plan {
  std::string prop;
  u64 seed = 0;
  std::map<std::string, long> params;
  std::vector<Op> ops;
  std::vector<Ev> evs;
  bool explicit_sched = false;  // events listed completely; nothing is drawn while executing
  long p(const char* k, long def = 0) const { auto it = params.find(k); return it == params.end() ? def : it->second; }
  std::string text() const;
  bool parse(const std::string& s, std::string& err);
};

// ---------------------------------------------------------------- violations
// Reports the first violation of the current run and never returns (the process ends with status 1).
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void fatal(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // error of the check itself
void emit(const char* fmt, ...) __attribute__((format(printf, 1, 2)));                 // line on the real stdout

// ---------------------------------------------------------------- simulator state
enum Mode { M_SEQ = 0, M_THREADS = 1, M_NEST = 2 };

struct Task;
struct StackInfo { char* base; size_t size; };

struct TaskCtl {          // per-task control block the instrumentation looks at
  u64 steps = 0;          // library steps of the current operation
  u64 next = ~0ull;       // next step of interest
  u64 budget = ~0ull;     // step budget of the current operation
  int op = -1;            // id of the current operation
  const char* opname = "";
  int id = -1;
  jmp_buf jb;
  bool inlib = false;
  u32 mx = 0x1f80;        // floating-point control word of the calling thread
  char *top = nullptr, *low = nullptr;   // stack of the call in progress: where it began and the deepest point seen
  u64 stk = ~0ull;        // stack it may use
};

struct SimStats { double maxbudget = 0;
  u64 runs = 0, ops = 0, libcalls = 0, steps = 0, switches = 0, nests = 0, abandons = 0, stalls = 0, allocs = 0,
      allocfails = 0, moves = 0, writes = 0, wfaults = 0, capfails = 0, garbage = 0, refchecks = 0, hot = 0, skipped = 0,
      ro = 0, tiles = 0, retries = 0, dirty = 0, fpcalls = 0, maxstack = 0;
  u64 maxsteps = 0;
  std::map<std::string, u64> probes;
};

struct Sim {
  Mode mode = M_SEQ;
  bool sched = false;          // schedule events active at all
  const Plan* plan = nullptr;
  Rng rng;                     // draws of the online (seeded) schedule
  double meangap = 200;        // mean steps between events in seeded mode
  double phot = 0.3;           // probability of an event at an access to static data
  double wS = 1, wZ = 0, wA = 0, wN = 0;   // weights of event kinds
  int maxev = 0, nev = 0;      // cap on events per execution
  int maxnest = 3, nest = 0;
  std::vector<Ev> recorded;    // events that fired (explicit form)
  u64 tracehash = 0;
  int ntasks = 0;
  bool fpdry = false;          // a trial run of the checker's: exceptions are not judged
  bool fpenv = false;          // callers have their own floating-point environment, which is watched
  u64 stklim[2][4];            // stack a call may use: [voxelization][2D, 3D, N-D, deprecated]
  bool strict = false;         // changes to the process are violations
  bool abandonable = false;    // current libcall may be abandoned
  u64 garbage = 0;             // seed for leftover-memory garbage (0: off)
  int gstyle = 0;
  u64 callno = 0;              // library calls of this execution
  SimStats st;
};
extern Sim sim;
extern TaskCtl* cur;           // task executing library code (or &idle)

// garbage
void fill_garbage(void* p, size_t n, u64 tag);
void dirty_stack(size_t n, u64 tag);

// library call: prepares and runs f() as operation step of task control c; returns false when abandoned
template <class F> static inline void call_thunk(void* f) { (*(F*)f)(); }
bool libcall_raw(TaskCtl* c, void (*thunk)(void*), void* f);
template <class F> static inline bool libcall(TaskCtl* c, F f) { return libcall_raw(c, &call_thunk<F>, &f); }

// tasks as fibers: body(i) runs task i.  Returns when all are finished.
void run_tasks(int n, const std::vector<int>& order, void (*body)(int, void*), void* arg);
// nested mode: called to run one complete pending operation of task t (returns false if none)
extern bool (*nest_hook)(int task);
void begin_op(TaskCtl* c, int opid, const char* name, u64 budget);

// memory with guard pages
struct Guarded {
  char* base = nullptr; size_t pages = 0; char* obj = nullptr; size_t size = 0, tail = 0;   // tail: bytes between the object and the guard page
};
Guarded guarded_alloc(size_t size);            // object flush with the guard page behind it
void guarded_place(Guarded& g, size_t size, size_t align);   // re-seat a smaller object at the end
void guarded_protect(const Guarded& g, bool ro);
void ro_region(char* p, size_t n, const char* what, bool on);

// heap seam
struct HeapOpts { bool fail = false; bool move = false; };
void heap_begin(int opid);                                 // per-operation allocation counter
u64 heap_live_blocks(int owner_op);                        // live blocks allocated by an op (-1: any)
void heap_forget(int owner_op);                            // blocks of an abandoned op are given up
void heap_disown(int from_op, int to_op);
void heap_check_all();                                     // canaries of all live blocks
u64 heap_allocs_of_op();                                   // allocations made since heap_begin
u64 heap_failed_of(int op);
void heap_reset();
extern HeapOpts heap_opts;

// output seam
void out_begin(const Plan* p, bool faults, u64 seed, int bufmode, double pfault);
bool out_flushed();            // the last out_take() got everything out
u64 out_failed();              // writes that were made to fail
std::string out_take();        // text accepted so far (stdout then cleared)
std::string err_take();
u64 out_writes();
void out_end();

void sim_init();
void fixed_layout(char** argv);
void watchdog_arm();
u64 edges_covered();
u32 edges_total();
void lib_reset();              // restore the library's static storage to its initial image
u64 lib_statics();             // bytes of static storage of the library
void clock_env(u64 seed);      // seeded values behind time/rand/getenv seams
u64 tls_bytes();
extern u64 env_reads;
void locks_reset();
void stacks_fresh();           // leftover stack bytes of earlier executions are gone
extern int cur_exec_op;
const unsigned char* edge_map();
