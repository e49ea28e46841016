#include "core.h"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>

#if defined(SIM_ASAN)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

Sim sim;
static TaskCtl idle;
TaskCtl* cur = &idle;
HeapOpts heap_opts;
bool (*nest_hook)(int) = nullptr;

static int realout = 1;
static std::string cur_plan_text;   // plan of the run in progress, explicit events appended on report
extern std::string report_dir;
extern u64 cur_run_index;
std::string report_dir;
u64 cur_run_index = 0;
static u64 crash_addr = 0;

// ---------------------------------------------------------------- plan text
static void app(std::string& s, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void app(std::string& s, const char* fmt, ...) {
  char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); s += b;
}
static void evtext(std::string& s, const Ev& e) { app(s, "ev %c %d %llu %ld\n", e.kind, e.op, (unsigned long long)e.a, e.b); }
std::string Plan::text() const {
  std::string s;
  app(s, "plan 1\nprop %s\nseed %llu\nexplicit %d\n", prop.c_str(), (unsigned long long)seed, (int)explicit_sched);
  for (auto& kv : params) app(s, "param %s %ld\n", kv.first.c_str(), kv.second);
  for (auto& o : ops) {
    app(s, "op %d %d %s %zu", o.id, o.task, o.name.c_str(), o.iv.size());
    for (long v : o.iv) app(s, " %ld", v);
    app(s, " %zu", o.dv.size());
    for (double d : o.dv) app(s, " %a", d);
    s += "\n";
  }
  for (auto& e : evs) evtext(s, e);
  return s;
}
bool Plan::parse(const std::string& t, std::string& err) {
  size_t pos = 0; bool head = false;
  while (pos < t.size()) {
    size_t e = t.find('\n', pos); if (e == std::string::npos) e = t.size();
    std::string line = t.substr(pos, e - pos); pos = e + 1;
    if (line.empty() || line[0] == '#') continue;
    std::vector<std::string> w; size_t i = 0;
    while (i < line.size()) { while (i < line.size() && line[i] == ' ') ++i; size_t j = i;
      while (j < line.size() && line[j] != ' ') ++j; if (j > i) w.push_back(line.substr(i, j - i)); i = j; }
    if (w.empty()) continue;
    if (w[0] == "plan") head = true;
    else if (w[0] == "prop" && w.size() > 1) prop = w[1];
    else if (w[0] == "seed" && w.size() > 1) seed = strtoull(w[1].c_str(), 0, 10);
    else if (w[0] == "explicit" && w.size() > 1) explicit_sched = w[1] == "1";
    else if (w[0] == "param" && w.size() > 2) params[w[1]] = strtol(w[2].c_str(), 0, 10);
    else if (w[0] == "op" && w.size() > 4) {
      Op o; o.id = atoi(w[1].c_str()); o.task = atoi(w[2].c_str()); o.name = w[3];
      size_t k = 4; size_t n = strtoul(w[k++].c_str(), 0, 10);
      if (k + n >= w.size()) { err = "bad op: " + line; return false; }
      for (size_t q = 0; q < n; ++q) o.iv.push_back(strtol(w[k++].c_str(), 0, 10));
      n = strtoul(w[k++].c_str(), 0, 10);
      if (k + n > w.size()) { err = "bad op: " + line; return false; }
      for (size_t q = 0; q < n; ++q) o.dv.push_back(strtod(w[k++].c_str(), 0));
      ops.push_back(o);
    } else if (w[0] == "ev" && w.size() > 4)
      evs.push_back(Ev{w[1][0], atoi(w[2].c_str()), strtoull(w[3].c_str(), 0, 10), strtol(w[4].c_str(), 0, 10)});
    else if (w[0] == "class" || w[0] == "detail" || w[0] == "variant" || w[0] == "note") {}
    else { err = "bad line: " + line; return false; }
  }
  if (!head) err = "no plan header";
  return head;
}

// ---------------------------------------------------------------- reporting
static void rawwrite(int fd, const char* p, size_t n) { while (n) { ssize_t k = write(fd, p, n); if (k <= 0) break; p += k; n -= k; } }
void emit(const char* fmt, ...) {
  char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n'; rawwrite(realout, b, n);
}
void fatal(const char* fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  emit("FATAL run=%llu %s", (unsigned long long)cur_run_index, b); _exit(3);
}
static bool reporting = false;
[[noreturn]] static void report(const char* cls, const char* detail) {
  if (reporting) _exit(1);
  reporting = true;
  idle.next = ~0ull; cur = &idle;
  // the plan as executed, with the events that fired made explicit
  std::string s;
  if (sim.plan) {
    Plan p = *sim.plan;
    if (!p.explicit_sched) { for (auto& e : sim.recorded) p.evs.push_back(e); p.explicit_sched = true; }
    s = p.text();
  }
  char b[4096]; snprintf(b, sizeof b, "class %s\ndetail %s\n", cls, detail); s += b;
  char path[600]; snprintf(path, sizeof path, "%s/run%llu.plan", report_dir.empty() ? "." : report_dir.c_str(), (unsigned long long)cur_run_index);
  if (!report_dir.empty()) { int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { rawwrite(fd, s.data(), s.size()); close(fd); } }
  emit("VIOLATED run=%llu class=%s plan=%s detail=%s", (unsigned long long)cur_run_index, cls, report_dir.empty() ? "-" : path, detail);
  _exit(1);
}
void violate(const char* cls, const char* fmt, ...) {
  char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (char* p = b; *p; ++p) if (*p == '\n') *p = ' ';
  report(cls, b);
}

// Everything the library can see lies at an address that depends on the execution alone.
static char* map_at(u64 at, size_t n) {
  void* m = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (m == MAP_FAILED && at) m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) fatal("mmap");
  return (char*)m;
}
static const u64 AT_STACKS = 0x200000000000ull, AT_HEAP = 0x280000000000ull, AT_ARGS = 0x300000000000ull;
struct RoReg { char* p; size_t n; const char* what; };
static std::vector<RoReg> ro_regs;
void ro_region(char* p, size_t n, const char* what, bool on) {
  if (on) ro_regs.push_back(RoReg{p, n, what});
  else ro_regs.erase(std::remove_if(ro_regs.begin(), ro_regs.end(), [&](const RoReg& r) { return r.p == p; }), ro_regs.end());
}
static bool in_guard(char* a);
static void onsig(int sig, siginfo_t* si, void*) {
  TaskCtl* c = cur;
  char d[400];
  const char* cls = "memory-fault";
  if (sig == SIGSEGV || sig == SIGBUS) {
    char* a = (char*)si->si_addr;
    for (auto& r : ro_regs) if (a >= r.p && a < r.p + r.n) { cls = "input-written";
      snprintf(d, sizeof d, "store to read-only input (%s) in op %d %s", r.what, c->op, c->opname); report(cls, d); }
    snprintf(d, sizeof d, "signal %d in op %d %s (%s)", sig, c->op, c->opname, in_guard(a) ? "guard page beside an argument" : "wild address");
  } else if (sig == SIGFPE && (si->si_code == FPE_FLTINV || si->si_code == FPE_FLTDIV) && c->inlib) { cls = "fp-exception"; snprintf(d, sizeof d, "op %d %s traps on %s", c->op, c->opname, si->si_code == FPE_FLTDIV ? "a floating-point division by zero" : "an invalid floating-point operation"); report(cls, d);
  } else if (sig == SIGILL || sig == SIGTRAP) snprintf(d, sizeof d, "array index out of bounds (trap) in op %d %s", c->op, c->opname);
  else snprintf(d, sizeof d, "signal %d in op %d %s", sig, c->op, c->opname);
  if (!c->inlib) { extern int cur_exec_op; snprintf(d, sizeof d, "signal %d while following what the library returned around op %d", sig, cur_exec_op); report("broken-result", d); }
  report(cls, d);
}
static u64 wd_last = ~0ull; static int wd_same = 0;
static void onalarm(int, siginfo_t*, void*) {
  if (!cur->inlib) { wd_same = 0; return; }
  u64 now = sim.st.steps + cur->steps + sim.st.libcalls * 7;
  if (now == wd_last) { if (++wd_same >= 5) { char d[200]; snprintf(d, sizeof d, "op %d %s blocks without executing library code", cur->op, cur->opname); report("no-progress", d); } }
  else { wd_same = 0; wd_last = now; }
}
void watchdog_arm() { struct itimerval tv = {{2, 0}, {2, 0}}; setitimer(ITIMER_REAL, &tv, nullptr); }

#if defined(SIM_ASAN)
extern "C" const char* __asan_default_options() {
  return "handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:detect_leaks=0:detect_stack_use_after_return=0:halt_on_error=1:exitcode=1:print_summary=0:symbolize=0:log_path=/dev/null:allocator_may_return_null=1";
}
static void asan_death() {
  char d[200];
  if (!cur->inlib) { emit("FATAL run=%llu address error in harness near op %d %s", (unsigned long long)cur_run_index, cur->op, cur->opname); _exit(3); }
  snprintf(d, sizeof d, "invalid memory access (%s) in op %d %s", __asan_get_report_description() ? __asan_get_report_description() : "?", cur->op, cur->opname);
  report("memory-fault", d);
}
#endif

// ---------------------------------------------------------------- instrumentation callbacks
// begin.o and end.o bracket the library in the link order, so these delimit its static storage
extern "C" char sim_lib_data_lo[], sim_lib_data_hi[], sim_lib_bss_lo[], sim_lib_bss_hi[];
extern "C" __thread char sim_lib_tdata_lo[], sim_lib_tdata_hi[], sim_lib_tbss_lo[], sim_lib_tbss_hi[];
static char *data_lo, *data_hi, *bss_lo, *bss_hi;
static char *td_lo, *td_hi, *tb_lo, *tb_hi;   // thread-local storage of the library
static std::vector<char> td_img;
static std::vector<char> data_img, bss_img;
static u32 nguards = 0;
static unsigned char* edge_seen = nullptr;

static void slow_in(TaskCtl* c);
static void hot_in(TaskCtl* c);
// The simulator's own frames below the library's leave nothing behind (the red zone is not in use at a call).
__attribute__((noinline, no_sanitize("address"))) static void wipe_below(size_t n) { char* p = (char*)__builtin_alloca(n); for (size_t i = 0; i < n; i += 8) *(volatile u64*)(p + i) = 0; asm volatile("" : : "r"(p) : "memory"); }
// what the calling thread has set up for floating point
static u32 mx_get() { u32 m; asm volatile("stmxcsr %0" : "=m"(m)); return m; }
static void mx_set(u32 m) { asm volatile("ldmxcsr %0" : : "m"(m)); }
static unsigned short cw_get() { unsigned short w; asm volatile("fnstcw %0" : "=m"(w)); return w; }
static void fp_check(TaskCtl* c, u32 m, const char* when) {
  if ((m & 0xffc0) != (c->mx & 0xffc0)) violate("environment-changed", "op %d %s has changed the floating-point control word from %04x to %04x %s", c->op, c->opname, c->mx & 0xffc0, m & 0xffc0, when);
  if (cw_get() != 0x37f) violate("environment-changed", "op %d %s has changed the x87 control word to %04x %s", c->op, c->opname, cw_get(), when);
  if ((m & 5) && !sim.fpdry) violate("fp-exception", "op %d %s raised %s", c->op, c->opname, m & 4 ? "division by zero" : "an invalid operation");
}
static __attribute__((noinline)) void slow(TaskCtl* c) {
  u32 m = 0; bool fp = sim.fpenv && c != &idle; if (fp) { m = mx_get(); mx_set(0x1f80); fp_check(c, m, "at a point where it can be interrupted"); }
  slow_in(c); if (fp) mx_set(m); wipe_below(4096); }
static __attribute__((noinline)) void hot(TaskCtl* c) { if (c == &idle) return;
  u32 m = 0; if (sim.fpenv) { m = mx_get(); mx_set(0x1f80); }
  hot_in(c); if (sim.fpenv) mx_set(m); wipe_below(4096); }
static __attribute__((noinline)) void deep(TaskCtl* c, char* f) {
  c->low = f; if ((u64)(c->top - f) > c->stk) violate("stack", "op %d %s uses more than %llu bytes of stack", c->op, c->opname, (unsigned long long)c->stk); }
static inline void tick(TaskCtl* c) { if (__builtin_expect(++c->steps >= c->next, 0)) slow(c); }
#define NOI __attribute__((no_sanitize("address")))
extern "C" {
NOI void __sanitizer_cov_trace_pc_guard_init(u32* a, u32* b) {
  if (a == b || *a) return;
  for (; a < b; ++a) *a = ++nguards;
}
NOI void __sanitizer_cov_trace_pc_guard(u32* g) { if (edge_seen) edge_seen[*g] = 1; TaskCtl* c = cur; char* f = (char*)__builtin_frame_address(0); if (__builtin_expect(f < c->low, 0)) deep(c, f); tick(c); }
#define CB(nm) NOI void nm(char* a) { TaskCtl* c = cur; tick(c); if (__builtin_expect((a >= data_lo && a < data_hi) || (a >= bss_lo && a < bss_hi) || (a >= td_lo && a < td_hi) || (a >= tb_lo && a < tb_hi), 0)) hot(c); }
CB(__sanitizer_cov_load1) CB(__sanitizer_cov_load2) CB(__sanitizer_cov_load4) CB(__sanitizer_cov_load8) CB(__sanitizer_cov_load16)
CB(__sanitizer_cov_store1) CB(__sanitizer_cov_store2) CB(__sanitizer_cov_store4) CB(__sanitizer_cov_store8) CB(__sanitizer_cov_store16)
}
u32 edges_total() { return nguards; }
u64 lib_statics() { return (u64)(data_hi - data_lo) + (u64)(bss_hi - bss_lo); }
NOI static void rawcopy(char* d, const char* s, size_t n) { for (size_t i = 0; i < n; ++i) ((volatile char*)d)[i] = ((const volatile char*)s)[i]; }
const unsigned char* edge_map() { return edge_seen; }
u64 edges_covered() { u64 n = 0; for (u32 i = 1; i <= nguards; ++i) n += edge_seen[i]; return n; }

// ---------------------------------------------------------------- fibers
struct Fiber {
  void* sp = nullptr; char* stack = nullptr; size_t size = 0; bool done = true, stalled = false;
  TaskCtl* saved_cur = nullptr; std::vector<char> tls; u32 mxcsr = 0;
};
static const size_t STACK = 24u << 20;
static std::vector<Fiber> fibers;
static void* main_sp;
static int running = -1, want = -1;
static void (*task_body)(int, void*); static void* task_arg;
static size_t tls_n = 0;
static void tls_get(std::vector<char>& v) { rawcopy(v.data(), td_lo, (size_t)(td_hi - td_lo)); rawcopy(v.data() + (td_hi - td_lo), tb_lo, (size_t)(tb_hi - tb_lo)); }
static void tls_put(const std::vector<char>& v) { rawcopy(td_lo, v.data(), (size_t)(td_hi - td_lo)); rawcopy(tb_lo, v.data() + (td_hi - td_lo), (size_t)(tb_hi - tb_lo)); }
static void tls_fresh(std::vector<char>& v) { v.assign(tls_n, 0); memcpy(v.data(), td_img.data(), td_img.size()); }
void lib_reset() {
  rawcopy(data_lo, data_img.data(), data_img.size()); rawcopy(bss_lo, bss_img.data(), bss_img.size());
  std::vector<char> v; tls_fresh(v); tls_put(v);
}

extern "C" void sim_swap(void** save, void* to);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swap,.-sim_swap
)");

#if defined(SIM_ASAN)
static const void* main_bottom; static size_t main_size;
#endif
static void to_main(bool finished) {
  Fiber& f = fibers[running];
  f.saved_cur = cur;
#if defined(SIM_ASAN)
  void* fake = nullptr;
  __sanitizer_start_switch_fiber(finished ? nullptr : &fake, main_bottom, main_size);
  sim_swap(&f.sp, main_sp);
  __sanitizer_finish_switch_fiber(fake, &main_bottom, &main_size);
#else
  (void)finished;
  sim_swap(&f.sp, main_sp);
#endif
}
static void fiber_entry() {
#if defined(SIM_ASAN)
  __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
  int me = running;
  task_body(me, task_arg);
  fibers[me].done = true;
  cur = &idle;
  to_main(true);
  fatal("finished fiber resumed");
}
static void resume(int i) {
  Fiber& f = fibers[i];
  running = i;
  cur = f.saved_cur;
  if (tls_n) tls_put(f.tls);
#if defined(SIM_ASAN)
  void* fake = nullptr;
  __sanitizer_start_switch_fiber(&fake, f.stack, f.size);
  sim_swap(&main_sp, f.sp);
  __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#else
  sim_swap(&main_sp, f.sp);
#endif
  if (tls_n) tls_get(f.tls);
  cur = &idle;
  running = -1;
}
void stacks_fresh() { for (auto& f : fibers) madvise(f.stack, f.size, MADV_DONTNEED); sim.callno = 0; }
void run_tasks(int n, const std::vector<int>& order, void (*body)(int, void*), void* arg) {
  while ((int)fibers.size() < n) {
    Fiber f; f.size = STACK;
    f.stack = map_at(AT_STACKS + fibers.size() * (64ull << 20), STACK + 8192);
    mprotect(f.stack, 4096, PROT_NONE); f.stack += 4096;
    fibers.push_back(f);
  }
  task_body = body; task_arg = arg;
  for (int i = 0; i < n; ++i) {
    Fiber& f = fibers[i];
#if defined(SIM_ASAN)
    __asan_unpoison_memory_region(f.stack, f.size);
#endif
    u64* sp = (u64*)(f.stack + f.size - 64);
    *--sp = 0;                    // fake return address of entry
    *--sp = (u64)(void*)fiber_entry;
    for (int k = 0; k < 6; ++k) *--sp = 0;
    *--sp = 0; u32 mx = 0x1f80; unsigned short cw = 0x37f; memcpy((char*)sp, &mx, 4); memcpy((char*)sp + 4, &cw, 2);
    f.sp = sp; f.done = false; f.stalled = false; f.saved_cur = &idle;
    if (tls_n) tls_fresh(f.tls);
  }
  std::vector<char> maintls; if (tls_n) { maintls.resize(tls_n); tls_get(maintls); }
  int nextup = order.empty() ? 0 : order[0];
  size_t oi = 0;
  for (;;) {
    if (nextup < 0 || nextup >= n || fibers[nextup].done || fibers[nextup].stalled) {
      nextup = -1;
      for (; oi < order.size(); ++oi) if (!fibers[order[oi]].done && !fibers[order[oi]].stalled) { nextup = order[oi]; break; }
      if (nextup < 0) for (int i = 0; i < n; ++i) if (!fibers[i].done && !fibers[i].stalled) { nextup = i; break; }
      if (nextup < 0) { // only stalled ones left
        for (int i = 0; i < n; ++i) if (!fibers[i].done) { fibers[i].stalled = false; nextup = i; break; }
        if (nextup < 0) break;
      }
    }
    want = -1;
    resume(nextup);
    nextup = want;
  }
  if (tls_n) tls_put(maintls);
}

// ---------------------------------------------------------------- schedule events
static void fire(TaskCtl* c, char kind, long target) {
  u64 at = c->steps;
  sim.recorded.push_back(Ev{kind, c->op, at, target});
  sim.nev++;
  Hash h; h.h = sim.tracehash; h.add((u64)kind); h.add((u64)c->op); h.add(at); h.add((u64)target); sim.tracehash = h.h;
  switch (kind) {
    case 'S': sim.st.switches++; want = (int)target; to_main(false); break;
    case 'Z': sim.st.stalls++; want = -1; fibers[running].stalled = true; to_main(false); break;
    case 'A': sim.st.abandons++; longjmp(c->jb, 1);
    case 'N': {
      TaskCtl* save = cur; u64 keep = c->next;
      c->next = ~0ull; sim.nest++;
      cur = &idle;
      bool did = nest_hook && nest_hook((int)target);
      if (did) sim.st.nests++;
      sim.nest--; cur = save; c->next = keep;
      break; }
  }
}
static void arm(TaskCtl* c) {
  // next step of interest for this operation
  u64 nx = c->budget;
  if (sim.sched && sim.plan) {
    if (sim.plan->explicit_sched) {
      for (auto& e : sim.plan->evs)
        if (e.op == c->op && (e.kind == 'S' || e.kind == 'Z' || e.kind == 'A' || e.kind == 'N') && e.a > c->steps && e.a < nx) nx = e.a;
    } else if (sim.nev < sim.maxev) {
      double u = sim.rng.uni(); if (u < 1e-12) u = 1e-12;
      u64 gap = 1 + (u64)(-sim.meangap * __builtin_log(u));
      if (c->steps + gap < nx) nx = c->steps + gap;
    }
  }
  c->next = nx;
}
static void pick(TaskCtl* c) {   // seeded mode: decide what happens here
  double a = sim.wS, z = sim.wZ, ab = sim.abandonable ? sim.wA : 0, nn = sim.nest < sim.maxnest ? sim.wN : 0;
  if (sim.mode != M_THREADS) a = z = 0;
  double t = a + z + ab + nn;
  if (t <= 0) return;
  double u = sim.rng.uni() * t;
  long tgt = (long)sim.rng.below((u64)std::max(1, sim.ntasks));
  if (u < a) fire(c, 'S', tgt);
  else if (u < a + z) fire(c, 'Z', 0);
  else if (u < a + z + ab) fire(c, 'A', 0);
  else fire(c, 'N', tgt);
}
static void slow_in(TaskCtl* c) {
  if (c == &idle) { c->next = ~0ull; return; }
  if (c->steps >= c->budget) violate("no-progress", "op %d %s exceeded its step budget %llu", c->op, c->opname, (unsigned long long)c->budget);
  if (sim.sched && sim.plan) {
    if (sim.plan->explicit_sched) {
      // copy: the vector must not change, several events may share a step
      for (size_t i = 0; i < sim.plan->evs.size(); ++i) { const Ev e = sim.plan->evs[i];
        if (e.op != c->op || e.a != c->steps) continue;
        if (e.kind == 'S' && sim.mode == M_THREADS) fire(c, 'S', e.b);
        else if (e.kind == 'Z' && sim.mode == M_THREADS) fire(c, 'Z', 0);
        else if (e.kind == 'A' && sim.abandonable) fire(c, 'A', 0);
        else if (e.kind == 'N' && sim.nest < sim.maxnest) fire(c, 'N', e.b);
      }
    } else if (sim.nev < sim.maxev) pick(c);
  }
  arm(c);
}
static void hot_in(TaskCtl* c) {
  if (c == &idle) return;
  sim.st.hot++;
  if (!sim.sched || !sim.plan || sim.plan->explicit_sched || sim.nev >= sim.maxev + 64) return;
  if (sim.rng.chance(sim.phot)) { pick(c); arm(c); }
}
void begin_op(TaskCtl* c, int opid, const char* name, u64 budget) {
  c->op = opid; c->opname = name; c->steps = 0; c->budget = budget; int dim = name[0] == '2' ? 0 : name[0] == '3' ? 1 : name[0] == '4' ? 2 : 3; const char* f = strchr(name, '.'); bool grid = dim < 3 && f && (!strcmp(f, ".vox") || !strcmp(f, ".dep") || !strcmp(f, ".tile") || !strcmp(f, ".assemble"));
  c->stk = sim.stklim[grid][dim];
}
// calls with the callee-saved registers cleared: what the library saves on its stack is not ours
extern "C" void sim_clean_call(void (*fn)(void*), void* arg);
asm(R"(
.text
.globl sim_clean_call
.type sim_clean_call,@function
sim_clean_call:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  movq %rdi,%rax
  movq %rsi,%rdi
  xorl %ebp,%ebp
  xorl %ebx,%ebx
  xorl %r12d,%r12d
  xorl %r13d,%r13d
  xorl %r14d,%r14d
  xorl %r15d,%r15d
  xorl %esi,%esi
  xorl %edx,%edx
  xorl %ecx,%ecx
  xorl %r8d,%r8d
  xorl %r9d,%r9d
  call *%rax
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_clean_call,.-sim_clean_call
)");
bool libcall_raw(TaskCtl* c, void (*thunk)(void*), void* f) {
  sim.st.libcalls++;
  if (sim.garbage) { static const size_t sz[4] = {8192, 65536, 262144, 1 << 20}; u64 t = mix64(sim.garbage ^ ++sim.callno); dirty_stack(sz[t & 3], t); sim.st.garbage++; }
  else wipe_below(65536);
  TaskCtl* save = cur;
  bool ok;
  u64 s0 = c->steps;
  jmp_buf keep; memcpy(keep, c->jb, sizeof keep);
  if (setjmp(c->jb) == 0) {
    arm(c);
    c->inlib = true; cur = c; c->low = c->top = (char*)__builtin_frame_address(0);
    if (sim.fpenv) { sim.st.fpcalls++; mx_set(c->mx); sim_clean_call(thunk, f); u32 m = mx_get(); mx_set(0x1f80); fp_check(c, m, "when it returns"); }
    else sim_clean_call(thunk, f);
    ok = true;
  } else { ok = false; if (sim.fpenv) mx_set(0x1f80); }
  if (c->top - c->low > (long)sim.st.maxstack) sim.st.maxstack = (u64)(c->top - c->low);
  c->low = nullptr;
  c->inlib = false; cur = save;
  c->next = ~0ull;
  memcpy(c->jb, keep, sizeof keep);
  u64 used = c->steps - s0;
  sim.st.steps += used;
  if (used > sim.st.maxsteps) sim.st.maxsteps = used;
  if (c->budget > s0 && c->budget != ~0ull) { double q = (double)used / (double)(c->budget - s0); if (q > sim.st.maxbudget) sim.st.maxbudget = q; }
  return ok;
}

// ---------------------------------------------------------------- leftover memory
void fill_garbage(void* p, size_t n, u64 tag) {
  Rng r(mix64(tag ^ sim.garbage));
  unsigned char* b = (unsigned char*)p;
  int style = (int)((sim.gstyle + r.below(3)) % 6);
  size_t i = 0;
  u64 k = r.next();
  for (; i + 8 <= n; i += 8) {
    u64 v;
    switch (style) {
      case 0: v = 0; break;
      case 1: v = ~0ull; break;
      case 2: k = k * 6364136223846793005ull + 1442695040888963407ull; v = ((k >> 40) % 23) | (((k >> 20) % 23) << 32); break;   // plausible indices
      case 3: { k = k * 6364136223846793005ull + 1442695040888963407ull; double d = (double)(long)(k >> 40) * 1e-7 - 0.8; memcpy(&v, &d, 8); break; }
      case 4: k = k * 6364136223846793005ull + 1442695040888963407ull; v = k ^ (k >> 29); break;
      default: v = 0x0000000100000001ull; break;
    }
    memcpy(b + i, &v, 8);
  }
  for (; i < n; ++i) b[i] = (unsigned char)k;
}
__attribute__((noinline)) void dirty_stack(size_t n, u64 tag) {
  char* p = (char*)__builtin_alloca(n);
  fill_garbage(p, n, tag);
  asm volatile("" : : "r"(p) : "memory");
}

struct GReg { char* lo; char* hi; };
static std::vector<GReg> guards;
static bool in_guard(char* a) { for (auto& g : guards) if (a >= g.lo && a < g.hi) return true; return false; }
Guarded guarded_alloc(size_t size) {
  size = (size + 7) & ~(size_t)7;
  size_t pages = (size + 4095) / 4096;
  static std::map<size_t, u64> made;
  u64 k = made[pages]++, span = (pages + 2) * 4096;
  char* m = map_at(pages < 0x4000 && (k + 1) * span < (1ull << 32) ? AT_ARGS + ((u64)pages << 32) + k * span : 0, span);
  mprotect(m, 4096, PROT_NONE); mprotect(m + (pages + 1) * 4096, 4096, PROT_NONE);
  guards.push_back(GReg{m, m + 4096}); guards.push_back(GReg{m + (pages + 1) * 4096, m + (pages + 2) * 4096});
  Guarded g; g.base = m + 4096; g.pages = pages; g.size = size; g.obj = g.base + pages * 4096 - size;
  return g;
}
void guarded_place(Guarded& g, size_t size, size_t align) {
  size = (size + align - 1) & ~(align - 1);
  g.size = size; g.obj = g.base + g.pages * 4096 - size;
}
void guarded_protect(const Guarded& g, bool ro) {
  if (mprotect(g.base, g.pages * 4096, ro ? PROT_READ : PROT_READ | PROT_WRITE)) fatal("mprotect");
}

// ---------------------------------------------------------------- heap seam
struct Blk { size_t size; int op; int task; bool live; char* raw; };
static std::map<char*, Blk> blocks;
static u64 h_count = 0, h_failed = 0, h_serial = 0;
struct OpCount { u64 n = 0, failed = 0; };
static std::map<int, OpCount> h_ops;
static const size_t CAN = 32;
void heap_begin(int opid) { h_ops[opid] = OpCount(); }
u64 heap_allocs_of_op() { return h_ops[cur->op].n; }
u64 heap_failed_of(int op) { return h_ops[op].failed; }
u64 heap_live_blocks(int op) { u64 n = 0; for (auto& b : blocks) if (b.second.live && b.second.op != -2 && (op < 0 || b.second.op == op)) ++n; return n; }
void heap_disown(int from, int to) { for (auto& b : blocks) if (b.second.op == from) b.second.op = to; }
static void canary(char* p, size_t n) {
  for (size_t i = 0; i < CAN; ++i) { p[-(long)CAN + (long)i] = (char)(0xA5 ^ i); p[n + i] = (char)(0x5A ^ i); }
}
static bool canary_ok(char* p, size_t n) {
  for (size_t i = 0; i < CAN; ++i) if (p[-(long)CAN + (long)i] != (char)(0xA5 ^ i) || p[n + i] != (char)(0x5A ^ i)) return false;
  return true;
}
void heap_check_all() {
  for (auto& b : blocks) if (b.second.live && b.second.raw != b.first && !canary_ok(b.first, b.second.size))
    violate("memory-fault", "heap block of %zu bytes from op %d overrun", b.second.size, b.second.op);
}
// blocks of an abandoned call stay allocated (as they would) but are no longer counted against anyone
void heap_forget(int op) { for (auto& b : blocks) if (b.second.op == op) b.second.op = -2; }
static char* arena; static size_t arena_at; static const size_t ARENA = 1ull << 30;
void heap_reset() {
#if defined(SIM_ASAN)
  for (auto& b : blocks) free(b.second.raw);
#else
  if (arena_at > (8u << 20)) madvise(arena, arena_at, MADV_DONTNEED);
  arena_at = 0;
#endif
  blocks.clear(); h_ops.clear(); h_failed = 0; h_serial = 0; }
static bool alloc_should_fail() {
  OpCount& oc = h_ops[cur->op];
  u64 k = oc.n++;
  sim.st.allocs++; h_count++;
  if (!heap_opts.fail || !sim.plan) return false;
  for (auto& e : sim.plan->evs) if (e.kind == 'M' && e.op == cur->op && (e.a == k || (e.b == 1 && k >= e.a))) { oc.failed++; h_failed++; sim.st.allocfails++; return true; }
  return false;
}
static char* blk_new(size_t n) {
#if defined(SIM_ASAN)
  char* raw = (char*)malloc(n ? n : 1); char* p = raw;
#else
  if (!arena) arena = map_at(AT_HEAP, ARENA);
  size_t need = (n + 2 * CAN + 31) & ~(size_t)31;
  if (need > ARENA - arena_at) violate("no-progress", "the library asks for more than %zu MB, op %d %s", ARENA >> 20, cur->op, cur->opname);
  char* raw = arena + arena_at; char* p = raw + CAN; arena_at += need;
#endif
  if (!raw) fatal("out of memory");
  fill_garbage(p, n, 0x77 + h_serial++);
#if !defined(SIM_ASAN)
  canary(p, n);
#endif
  blocks[p] = Blk{n, cur->op, cur->id, true, raw};
  return p;
}
static void blk_free(char* p, const char* what) {
  auto it = blocks.find(p);
  if (it == blocks.end()) violate("bad-free", "%s of a pointer that is not an allocated block, op %d %s", what, cur->op, cur->opname);
  if (!it->second.live) violate("bad-free", "%s of a block already freed, op %d %s", what, cur->op, cur->opname);
#if !defined(SIM_ASAN)
  if (!canary_ok(p, it->second.size)) violate("memory-fault", "heap block of %zu bytes overrun, op %d %s", it->second.size, cur->op, cur->opname);
  memset(p, 0xDD, it->second.size);
  it->second.live = false;      // kept until reset: detects double frees, stale reads see 0xDD
#else
  free(it->second.raw); blocks.erase(it);
#endif
}
extern "C" {
__attribute__((noinline)) static void* malloc_in(size_t n) { if (alloc_should_fail()) { errno = ENOMEM; return nullptr; } return blk_new(n); }
__attribute__((noinline)) static void* realloc_in(void* q, size_t n);
__attribute__((noinline)) static void free_in(void* p) { blk_free((char*)p, "free"); }
void* sim_malloc(size_t n) { void* p = malloc_in(n); wipe_below(2048); return p; }
void* sim_calloc(size_t a, size_t b) { void* p = malloc_in(a * b); wipe_below(2048); if (p) memset(p, 0, a * b); return p; }
void sim_free(void* p) { if (p) { free_in(p); wipe_below(2048); } }
void* sim_realloc(void* q, size_t n) { void* p = realloc_in(q, n); wipe_below(2048); return p; }
static void* realloc_in(void* q, size_t n) {
  if (alloc_should_fail()) { errno = ENOMEM; return nullptr; }
  if (!q) return blk_new(n);
  auto it = blocks.find((char*)q);
  if (it == blocks.end() || !it->second.live) violate("bad-free", "realloc of a pointer that is not a live block, op %d %s", cur->op, cur->opname);
  // the simulated allocator always moves
  size_t o = it->second.size; int op = it->second.op;
  char* p = blk_new(n); memcpy(p, q, o < n ? o : n); blocks[p].op = op; sim.st.moves++;
  blk_free((char*)q, "realloc");
  return p;
}
void* sim_reallocarray(void* q, size_t a, size_t b) { return sim_realloc(q, a * b); }
void* sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
char* sim_strdup(const char* s) { char* p = (char*)sim_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
int sim_posix_memalign(void** o, size_t, size_t n) { void* p = sim_malloc(n); if (!p) return ENOMEM; *o = p; return 0; }
}

// ---------------------------------------------------------------- locks
// A lock taken by the library suspends the fiber until the holder releases it; when nobody could ever
// release it (the holder was interrupted or abandoned) the call can make no progress.
int cur_exec_op = -1;
static std::map<void*, std::pair<int, TaskCtl*>> locks;
void locks_reset() { locks.clear(); }
extern "C" {
int sim_mutex_lock(void* m) {
  for (int spins = 0;; ++spins) {
    auto it = locks.find(m);
    if (it == locks.end()) break;
    int h = it->second.first;
    if (sim.mode != M_THREADS || !sim.sched || h == running || h < 0 || fibers[(size_t)h].done || spins > 1000000) violate("no-progress", "op %d %s waits for a lock held by a call that cannot continue", cur->op, cur->opname);
    fibers[(size_t)h].stalled = false; want = h; to_main(false);
  }
  locks[m] = {running, cur}; return 0;
}
int sim_mutex_trylock(void* m) { if (locks.count(m)) return EBUSY; locks[m] = {running, cur}; return 0; }
int sim_mutex_unlock(void* m) { locks.erase(m); return 0; }
int sim_spin_lock(void* m) { return sim_mutex_lock(m); }
int sim_spin_trylock(void* m) { return sim_mutex_trylock(m); }
int sim_spin_unlock(void* m) { return sim_mutex_unlock(m); }
int sim_mtx_lock(void* m) { return sim_mutex_lock(m); }
int sim_mtx_trylock(void* m) { return sim_mutex_trylock(m) ? 1 /* thrd_busy */ : 0; }
int sim_mtx_unlock(void* m) { return sim_mutex_unlock(m); }
int sim_rwlock_wrlock(void* m) { return sim_mutex_lock(m); }
int sim_rwlock_rdlock(void* m) { return sim_mutex_lock(m); }    // readers exclude each other here: fewer schedules, never a wrong one
int sim_rwlock_unlock(void* m) { return sim_mutex_unlock(m); }
// 0: not begun, 2: done (the initial value of pthread_once_t and once_flag is 0)
int sim_once(int* flag, void (*fn)()) { if (*flag == 2) return 0; sim_mutex_lock(flag); if (*flag != 2) { fn(); *flag = 2; } sim_mutex_unlock(flag); return 0; }
void sim_call_once(int* flag, void (*fn)()) { sim_once(flag, fn); }
// a library call that ends the process
[[noreturn]] void sim_exit(int c) { violate("process-ended", "op %d %s ends the process with status %d", cur->op, cur->opname, c); }
[[noreturn]] void sim_exit1(int c) { sim_exit(c); }
[[noreturn]] void sim_exit2(int c) { sim_exit(c); }
[[noreturn]] void sim_exit3(int c) { sim_exit(c); }
[[noreturn]] void sim_abort() { violate("process-ended", "op %d %s aborts the process", cur->op, cur->opname); }
[[noreturn]] void sim_assert_fail(const char* e, const char* f, unsigned l, const char*) { const char* b = strrchr(f, '/'); violate("process-ended", "assertion %s fails at %s:%u, op %d %s", e, b ? b + 1 : f, l, cur->op, cur->opname); }
}

// ---------------------------------------------------------------- clock, randomness and environment seams
// The library has no business reading any of these; the values differ between executions that must agree.
static Rng env_rng(1); u64 env_reads = 0;
void clock_env(u64 seed) { env_rng = Rng(mix64(seed ^ 0xc10c)); }
extern "C" {
static long touched(const char* what) { sim.st.probes[std::string("env_") + what]++; if (sim.strict) violate("environment-changed", "op %d %s calls %s", cur->op, cur->opname, what); return 0; }
#define TOUCH(n) long sim_##n() { return touched(#n); }
TOUCH(signal) TOUCH(srand) TOUCH(srandom) TOUCH(srand48) TOUCH(setenv) TOUCH(putenv) TOUCH(unsetenv) TOUCH(clearenv) TOUCH(chdir) TOUCH(umask)
TOUCH(setvbuf) TOUCH(setbuf) TOUCH(setlinebuf) TOUCH(setbuffer) TOUCH(freopen) TOUCH(fclose) TOUCH(dup2) TOUCH(close) TOUCH(kill) TOUCH(raise) TOUCH(alarm) TOUCH(setitimer)
TOUCH(system) TOUCH(fork) TOUCH(vfork) TOUCH(popen) TOUCH(remove) TOUCH(unlink) TOUCH(rename) TOUCH(setrlimit) TOUCH(pthread_setcancelstate) TOUCH(pthread_setcanceltype) TOUCH(mallopt) TOUCH(atexit) TOUCH(fwide)
static char c_locale[] = "C";
char* sim_setlocale(int, const char* l) { if (l) touched("setlocale"); return c_locale; }
void* sim_uselocale(void* l) { if (l) touched("uselocale"); return (void*)-1l; }
int sim_sigaction(int, const void* a, void*) { if (a) touched("sigaction"); return 0; }
int sim_sigprocmask(int, const void* a, void*) { if (a) touched("sigprocmask"); return 0; }
int sim_pthread_sigmask(int, const void* a, void*) { if (a) touched("pthread_sigmask"); return 0; }
int sim_rand() { if (sim.strict) touched("rand"); env_reads++; return (int)(env_rng.next() >> 33); }
int sim_rand_r(unsigned*) { return sim_rand(); }
long sim_random() { if (sim.strict) touched("random"); env_reads++; return (long)(env_rng.next() >> 33); }
double sim_drand48() { if (sim.strict) touched("drand48"); env_reads++; return env_rng.uni(); }
long sim_time(long* t) { env_reads++; long v = (long)(env_rng.next() >> 30); if (t) *t = v; return v; }
long sim_clock() { env_reads++; return (long)(env_rng.next() >> 20); }
int sim_clock_gettime(int, struct timespec* ts) { env_reads++; ts->tv_sec = (long)(env_rng.next() >> 30); ts->tv_nsec = (long)env_rng.below(1000000000); return 0; }
int sim_gettimeofday(struct timeval* tv, void*) { env_reads++; tv->tv_sec = (long)(env_rng.next() >> 30); tv->tv_usec = (long)env_rng.below(1000000); return 0; }
char* sim_getenv(const char*) { env_reads++; static char on[2] = "1"; return env_rng.next() & 1 ? on : nullptr; }
}

// ---------------------------------------------------------------- output seam
static FILE *sim_out, *sim_err, *save_out, *save_err;
static std::string out_text, err_text;
static u64 w_count; static bool w_faults, w_flushok = true; static u64 w_failed, w_heal; static Rng w_rng; static double w_p; static char outbuf[2][4096]; static int w_mode, w_stuck = -1;
static ssize_t sink(std::string& t, const char* b, size_t n) {
  u64 k = w_count++;
  sim.st.writes++;
  int kind = -1;
  if (w_faults && sim.plan && !(w_heal && k >= w_heal)) {
    if (sim.plan->explicit_sched) { for (auto& e : sim.plan->evs) if (e.kind == 'W' && (e.a == k || (e.a < k && (e.b & 8)))) kind = (int)(e.b & 7); }
    else if (w_stuck >= 0) kind = w_stuck;
    else if (w_rng.chance(w_p)) { kind = (int)w_rng.below(4); bool stay = w_rng.chance(0.15); if (stay) w_stuck = kind; sim.recorded.push_back(Ev{'W', 0, k, kind | (stay ? 8 : 0)}); }
  }
  if (kind >= 0) { sim.st.wfaults++; w_failed++; }
  switch (kind) {
    case 0: errno = ENOSPC; return 0;          // cookie streams report errors as 0 bytes
    case 1: { size_t m = n > 1 ? n / 2 : n; t.append(b, m); return (ssize_t)m; }
    case 2: errno = EIO; return 0;
    case 3: errno = EAGAIN; return 0;
    default: t.append(b, n); return (ssize_t)n;
  }
}
static ssize_t wr_out(void*, const char* b, size_t n) { TaskCtl* s = cur; ssize_t r = sink(out_text, b, n); cur = s; return r; }
static ssize_t wr_err(void*, const char* b, size_t n) { return sink(err_text, b, n); }
// output that goes round the streams
extern "C" ssize_t sim_write(int fd, const void* b, size_t n) {
  if (fd == 1 && sim_out) { ssize_t r = wr_out(nullptr, (const char*)b, n); return r == 0 && n ? -1 : r; }
  if (fd == 2 && sim_err) { ssize_t r = wr_err(nullptr, (const char*)b, n); return r == 0 && n ? -1 : r; }
  return (ssize_t)n;
}
void out_begin(const Plan* pl, bool faults, u64 seed, int bufmode, double p) {
  if (!save_out) { save_out = stdout; save_err = stderr; }
  if (sim_out) out_end();
  cookie_io_functions_t fo = {nullptr, wr_out, nullptr, nullptr}, fe = {nullptr, wr_err, nullptr, nullptr};
  sim_out = fopencookie(nullptr, "w", fo); sim_err = fopencookie(nullptr, "w", fe);
  static const int modes[3] = {_IOFBF, _IOLBF, _IONBF};
  static const size_t szs[4] = {4096, 64, 512, 16};
  setvbuf(sim_out, outbuf[0], modes[bufmode % 3], bufmode % 3 == 2 ? 0 : szs[(bufmode / 3) % 4]);
  setvbuf(sim_err, nullptr, _IONBF, 0);
  out_text.clear(); err_text.clear(); w_count = 0; w_faults = faults; w_rng = Rng(mix64(seed)); w_p = p; w_mode = bufmode; w_stuck = -1; w_failed = 0; w_heal = pl ? (u64)pl->p("heal") : 0;
  stdout = sim_out; stderr = sim_err;
}
static void close_quiet(FILE* f) { w_faults = false; clearerr(f); fclose(f); }
void out_end() {
  if (!sim_out) return;
  stdout = save_out; stderr = save_err;
  close_quiet(sim_out); close_quiet(sim_err); sim_out = sim_err = nullptr;
}
bool out_flushed() { return w_flushok; }
u64 out_failed() { return w_failed; }
std::string out_take() { w_flushok = !sim_out || fflush(sim_out) == 0; std::string t = out_text; out_text.clear(); return t; }
std::string err_take() { if (sim_err) fflush(sim_err); std::string t = err_text; err_text.clear(); return t; }
u64 out_writes() { return w_count; }

// ---------------------------------------------------------------- init
u64 tls_bytes() { return tls_n; }
void fixed_layout(char** argv) {   // the same addresses in every process, where the system allows it
  int p = personality(0xffffffff);
  if (p == -1 || (p & ADDR_NO_RANDOMIZE) || getenv("SIM_LAYOUT")) return;
  if (personality((unsigned)p | ADDR_NO_RANDOMIZE) == -1) return;
  setenv("SIM_LAYOUT", "1", 1); execv("/proc/self/exe", argv); unsetenv("SIM_LAYOUT");
}
void sim_init() {
  realout = fcntl(1, F_DUPFD, 50);
  edge_seen = (unsigned char*)calloc(nguards + 2, 1);
  data_lo = sim_lib_data_lo; data_hi = sim_lib_data_hi; bss_lo = sim_lib_bss_lo; bss_hi = sim_lib_bss_hi;
  data_img.resize((size_t)(data_hi - data_lo)); bss_img.resize((size_t)(bss_hi - bss_lo));
  rawcopy(data_img.data(), data_lo, data_img.size()); rawcopy(bss_img.data(), bss_lo, bss_img.size());
  td_lo = sim_lib_tdata_lo; td_hi = sim_lib_tdata_hi; tb_lo = sim_lib_tbss_lo; tb_hi = sim_lib_tbss_hi;
  tls_n = (size_t)(td_hi - td_lo) + (size_t)(tb_hi - tb_lo); td_img.assign(td_lo, td_hi);
#if defined(SIM_ASAN)
  __sanitizer_set_death_callback(asan_death);
#endif
  static char alt[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sa.sa_sigaction = onsig;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGFPE, SIGABRT}) sigaction(s, &sa, nullptr);
  struct sigaction al; memset(&al, 0, sizeof al); al.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART; al.sa_sigaction = onalarm; sigaction(SIGALRM, &al, nullptr);
  (void)crash_addr;
}
