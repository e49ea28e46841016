// Executes plans against the real library and decides one property per plan; seeded search and replay.
#include <fcntl.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <cmath>
#include "gen.h"
#include "world.h"

extern std::string report_dir;
extern u64 cur_run_index;
#ifndef VARIANT
#define VARIANT "?"
#endif

struct Cfg {
  Mode mode = M_SEQ; bool sched = false, scribble = false, wfaults = false, mfaults = false, refs = false, reset_each = false, solo = false, noise = false, abandon = false, taint = false, restart = false, fpenv = false, stack = false;
  u64 garbage = 0, env = 1, skew = 0; int gstyle = 0, buf = 0; unsigned checks = 0; double pfault = 0; u64 perm = 0;
  const std::map<int, int>* stopat = nullptr;
};
typedef std::unique_ptr<World> WP;

struct Exec { const Plan* p; const Cfg* c; std::map<int, std::vector<const Op*>> by; std::map<int, size_t> at; std::map<int, int> busy; std::vector<const Op*> seq; };
static TaskCtl task_ctl[128], nest_ctl[16]; static int nest_depth = 0;
static Exec* EX = nullptr;

// the floating-point environment of a caller: rounding, flushing of denormal numbers, traps
static u32 fp_of(int task) {
  if (!EX->c->fpenv) return 0x1f80;
  char k[16]; snprintf(k, sizeof k, "fp%d", task); long v = EX->p->p(k, 4);
  return (0x1f80u & ~(v & 4 ? 0x280u : 0u)) | (u32)(v & 3) << 13 | (v & 8 ? 0x8000u : 0) | (v & 16 ? 0x40u : 0);
}
static void body_task(int i, void*) { task_ctl[i].mx = fp_of(i); for (const Op* o : EX->by[i]) exec_op(&task_ctl[i], *o); }
static void body_seq(int, void*) {
  TaskCtl c; c.id = 0;
  for (const Op* o : EX->seq) { if (EX->c->reset_each) lib_reset(); c.mx = fp_of(o->task); exec_op(&c, *o); }
}
// one process life after the other: an operation that is cut short ends the process; the next one starts from what was saved
static void body_restart(int, void*) {
  TaskCtl c; c.id = 0; auto im = take_image(); size_t saved = 0; u64 salt = mix64(EX->p->seed ^ 0xc4a5);
  for (size_t i = 0; i < EX->seq.size(); ++i) {
    const Op* o = EX->seq[i]; exec_op(&c, *o); bool crash = W->res[o->id].state == 2;
    if (o->name == "0.ckpt") { auto n = take_image(); if (n) { im = n; saved = i + 1; crash = o->iv[0] != 0; } }
    if (!crash) continue;
    for (size_t k = saved; k <= i; ++k) W->res.erase(EX->seq[k]->id);
    ++cur_attempt; salt = mix64(salt); restart_from(im, salt); i = saved - 1;
  }
}
static void nest_one(int task) {
  auto& v = EX->by[task]; const Op* o = v[EX->at[task]++];
  if (nest_depth >= 16) fatal("nesting"); TaskCtl* c = &nest_ctl[nest_depth++]; *c = TaskCtl(); c->id = task; EX->busy[task]++;
  c->mx = fp_of(task); exec_op(c, *o);
  EX->busy[task]--; --nest_depth;
}
static bool nest_can(int task) { auto it = EX->by.find(task); return it != EX->by.end() && !EX->busy[task] && EX->at[task] < it->second.size(); }
static bool nest_run(int task) { if (!nest_can(task)) return false; nest_one(task); return true; }
static void body_nest(int, void*) {
  for (const Op* o : EX->seq) {   // list order; operations already run nested are skipped
    auto& v = EX->by[o->task]; size_t k = 0; while (v[k] != o) ++k;
    if (k < EX->at[o->task]) continue;
    nest_one(o->task);
  }
}
static WP execute(const Plan& p, const Cfg& c) {
  WP w(new World); W = w.get(); Exec ex; EX = &ex; ex.p = &p; ex.c = &c;
  w->refs = c.refs; w->scribble = c.scribble; w->gseed = c.garbage; w->taint = c.taint; w->healthy = !c.wfaults; w->stopat = c.stopat; w->goodbig = p.p("goodbig") != 0;
  g_checks = c.checks; REFUNIT = ldexpl(1, (int)p.p("unit"));
  pool.salt = c.skew; pool.drawn = 0;
  lib_reset(); heap_reset(); locks_reset(); stacks_fresh(); clock_env(c.env);
  sim.mode = c.mode; sim.garbage = c.garbage; sim.gstyle = c.gstyle; sim.nev = 0; sim.nest = 0; sim.rng = Rng(mix64(p.seed ^ 0x5c4ed));
  sim.meangap = (double)p.p("gap", 200); sim.phot = (double)p.p("hot", 30) / 100.0; sim.maxev = (int)p.p("maxev", 20); sim.maxnest = (int)p.p("maxnest", 3);
  sim.wS = (double)p.p("wS"); sim.wZ = (double)p.p("wZ"); sim.wA = c.abandon ? (double)p.p("wA") : 0; sim.wN = (double)p.p("wN"); sim.abandonable = c.abandon;
  sim.fpenv = sim.strict = c.fpenv;
  { u64 sz[4] = {sizeof(D2::Poly), sizeof(D3::Poly), sizeof(D4::Poly), 4096}; for (int k = 0; k < 4; ++k) { sim.stklim[0][k] = c.stack ? (64u << 10) + 6 * sz[k] : ~0ull; sim.stklim[1][k] = c.stack ? (256u << 10) + 40 * sz[k] : ~0ull; } }
  heap_opts.fail = c.mfaults; out_begin(&p, c.wfaults, p.seed ^ 0x0f, c.buf, c.pfault);
  std::vector<const Op*> head, tail, mid; int maxt = 0;
  for (auto& o : p.ops) { if (o.task == 90 && !c.noise) continue; if (o.task == -1) head.push_back(&o); else if (o.task == -2) tail.push_back(&o); else { mid.push_back(&o); ex.by[o.task].push_back(&o); if (o.task < 90) maxt = std::max(maxt, o.task); } }
  if (c.perm) {   // another order of the tasks' operations, each task's own order kept
    Rng r(mix64(c.perm)); std::map<int, size_t> at; std::vector<int> left; for (auto& kv : ex.by) left.push_back(kv.first); mid.clear();
    while (!left.empty()) { size_t k = r.below(left.size()); int t = left[k]; mid.push_back(ex.by[t][at[t]++]); if (at[t] == ex.by[t].size()) left.erase(left.begin() + (long)k); }
  }
  sim.ntasks = maxt + 1; for (int i = 0; i <= maxt; ++i) { task_ctl[i] = TaskCtl(); task_ctl[i].id = i; } nest_depth = 0;
  sim.sched = false; sim.mode = M_SEQ; ex.seq = head; if (!head.empty()) run_tasks(1, {0}, body_seq, nullptr);
  sim.mode = c.mode; sim.sched = c.sched;
  if (c.solo) { for (auto& kv : ex.by) { lib_reset(); ex.seq = kv.second; run_tasks(1, {0}, body_seq, nullptr); } }
  else if (c.mode == M_THREADS) { std::vector<int> order; run_tasks(maxt + 1, order, body_task, nullptr); }
  else if (c.mode == M_NEST) { nest_hook = nest_run; ex.seq = mid; run_tasks(1, {0}, body_nest, nullptr); nest_hook = nullptr; }
  else { ex.seq = mid; run_tasks(1, {0}, c.restart ? body_restart : body_seq, nullptr); }
  cur_attempt = 0; sim.sched = false; sim.mode = M_SEQ; ex.seq = tail; if (!tail.empty()) run_tasks(1, {0}, body_seq, nullptr);
  out_end(); sim.sched = false;
  EX = nullptr;
  return w;
}
static void absorb(World* w) { Hash h; h.h = sim.tracehash; for (auto& q : w->res) { h.add((u64)q.first); h.add((u64)q.second.state); h.add((u64)q.second.status); h.add(q.second.dig); } sim.tracehash = h.h; }
static std::string opname(const Plan& p, int id) { for (auto& o : p.ops) if (o.id == id) return o.name; return "?"; }
static void compare(const Plan& p, World* a, World* b, const char* what, bool text = false) {
  for (auto& q : a->res) {
    auto it = b->res.find(q.first); if (it == b->res.end()) violate("differs", "%s: op %d %s missing", what, q.first, opname(p, q.first).c_str());
    const Res &x = q.second, &y = it->second;
    if (x.state != y.state || x.status != y.status || x.dig != y.dig) violate("differs", "%s: op %d %s gives state/status %d/%d instead of %d/%d%s", what, q.first, opname(p, q.first).c_str(), y.state, y.status, x.state, x.status, x.dig != y.dig ? " and other contents" : "");
    if (text && x.state != 2 && x.text != y.text) violate("differs", "%s: op %d %s prints something else", what, q.first, opname(p, q.first).c_str());
  }
}
static u64 fin(World* w) { W = w; return final_digest(); }

static void base_cfg(const Plan& p, Cfg& c) { c.garbage = (u64)p.p("garbage"); c.gstyle = (int)p.p("gstyle"); c.scribble = p.p("scribble"); }
static Mode mode_of(const Plan& p) { return p.p("threads") ? M_THREADS : M_SEQ; }

// An undisturbed execution measures the operations; the events are then spread evenly over operations and their lengths.
static Plan piloted(const Plan& p0) {
  Plan p = p0; Cfg c; base_cfg(p, c); sim.plan = &p; WP w = execute(p, c); Rng r(mix64(p.seed ^ 0x91107));
  std::vector<const Op*> ops; int maxt = 0; for (auto& o : p.ops) { auto it = w->res.find(o.id); if (it != w->res.end() && it->second.steps > 1 && o.task >= 0 && o.task < 90) ops.push_back(&o); if (o.task < 90) maxt = std::max(maxt, o.task); }
  p.explicit_sched = true; if (ops.empty()) return p;
  if (p.p("pfault")) for (int k = 0; k < 4; ++k) p.evs.push_back(Ev{'W', 0, r.below(k < 2 ? 6 : 60), (long)r.below(4) + (r.chance(0.2) ? 8 : 0)});
  double ws[4] = {(double)p.p("wS"), (double)p.p("wZ"), (double)p.p("wA"), (double)p.p("wN")}; if (maxt == 0) ws[0] = ws[1] = 0; double tot = ws[0] + ws[1] + ws[2] + ws[3]; if (tot <= 0) return p;
  std::map<std::string, std::vector<const Op*>> kind; for (auto o : ops) kind[o->name].push_back(o);
  for (long k = p.p("pilot"); k > 0; --k) {
    auto it = kind.begin(); std::advance(it, (long)r.below(kind.size())); const Op* o = r.chance(0.5) ? ops[r.below(ops.size())] : it->second[r.below(it->second.size())];
    double u = r.uni() * tot; char e = u < ws[0] ? 'S' : u < ws[0] + ws[1] ? 'Z' : u < ws[0] + ws[1] + ws[2] ? 'A' : 'N';
    p.evs.push_back(Ev{e, o->id + (p.prop == "P21" ? ATTEMPT * (int)r.below(3) : 0), 1 + r.below(w->res[o->id].steps), (e == 'S' || e == 'N') ? (long)r.below((u64)maxt + 1) : 0});
  }
  return p;
}
static void decide_plan(const Plan& p);
void decide(const Plan& p) { if (p.p("pilot") && !p.explicit_sched) { sim.recorded.clear(); sim.tracehash = 1; Plan q = piloted(p); decide_plan(q); } else decide_plan(p); }
static void decide_plan(const Plan& p) {
  const std::string& q = p.prop; Cfg a, b; base_cfg(p, a); base_cfg(p, b);
  sim.plan = &p; sim.recorded.clear(); sim.tracehash = 1;
  if (q == "P01") { a.solo = true; WP x = execute(p, a); u64 f = fin(x.get()); b.mode = M_THREADS; b.sched = true; WP y = execute(p, b); compare(p, x.get(), y.get(), "concurrent against alone"); if (fin(y.get()) != f) violate("differs", "objects at the end differ between concurrent and separate execution"); absorb(y.get()); }
  else if (q == "P02") { WP x = execute(p, a); u64 f = fin(x.get()); b.mode = M_NEST; b.sched = true; WP y = execute(p, b); compare(p, x.get(), y.get(), "interrupted against alone"); if (fin(y.get()) != f) violate("differs", "objects at the end differ between interrupted and plain execution"); absorb(y.get()); }
  else if (q == "P03") { b.checks = CK_RO; b.mode = mode_of(p); b.sched = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P04") { b.checks = CK_GRAPH | CK_REF | CK_MUST | CK_SIDE | CK_CELLS | CK_RO; b.refs = true; b.mode = mode_of(p); b.sched = true; b.abandon = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P05") { a.taint = true; WP x = execute(p, a); absorb(x.get()); }
  else if (q == "P06") { b.checks = CK_HEAP; b.mfaults = true; b.mode = mode_of(p); b.sched = true; b.abandon = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P07") { b.checks = CK_BREP | CK_GRAPH; b.refs = true; b.mode = mode_of(p); b.sched = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P08") {
    a.reset_each = true; WP x = execute(p, a);
    b.garbage = mix64(a.garbage) >> 8 | 1; b.gstyle = a.gstyle + 1; b.scribble = true; b.noise = true; b.perm = (u64)p.p("perm", 1) + 1; b.env = 77; b.buf = 3; b.skew = p.seed | 1;
    WP y = execute(p, b); compare(p, x.get(), y.get(), "with other history and leftovers", true); absorb(y.get());
  } else if (q == "P09") {
    b.sched = b.abandon = true; WP y = execute(p, b); u64 f = fin(y.get()); std::map<int, int> stop; for (auto& r : y->res) if (r.second.state == 2) stop[r.first] = r.second.calls - 1;
    a.stopat = &stop; WP x = execute(p, a); compare(p, x.get(), y.get(), "after abandoned calls against calls never made", true); if (fin(x.get()) != f) violate("differs", "objects at the end differ from a history without the abandoned calls"); absorb(y.get());
  } else if (q == "P16") { b.checks = CK_GOOD | CK_RO; b.mode = mode_of(p); b.sched = b.abandon = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P21") { WP x = execute(p, a); u64 f = fin(x.get()); b.restart = b.sched = b.abandon = true; b.skew = p.seed | 1; WP y = execute(p, b); compare(p, x.get(), y.get(), "after crashes and restarts against an undisturbed history"); if (fin(y.get()) != f) violate("differs", "objects at the end differ from an undisturbed history"); absorb(y.get()); }
  else if (q == "P22") {
    a.fpenv = b.fpenv = true; a.solo = true; b.sched = true; long how = p.p("how");
    if (how == 2) { b.abandon = true; b.mode = mode_of(p); WP y = execute(p, b); absorb(y.get()); }
    else { b.mode = how ? M_NEST : M_THREADS; WP x = execute(p, a); u64 f = fin(x.get()); WP y = execute(p, b); compare(p, x.get(), y.get(), "with other callers' floating-point settings around"); if (fin(y.get()) != f) violate("differs", "objects at the end depend on other callers' floating-point settings"); absorb(y.get()); }
  }
  else if (q == "P23") { b.stack = true; b.mode = mode_of(p); b.sched = b.abandon = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P17") { b.checks = CK_GRAPH | CK_REF | CK_SIDE | CK_FACES | CK_RO; b.refs = true; b.mode = mode_of(p); b.sched = b.abandon = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P18") { b.checks = CK_FAR | CK_GRAPH; b.mode = mode_of(p); b.sched = b.abandon = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P19") { b.checks = CK_IBOX | CK_REF | CK_SIDE; b.refs = true; b.mode = mode_of(p); b.sched = b.abandon = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P10") { b.checks = CK_GRAPH | CK_REF | CK_SIDE; b.refs = true; b.mode = mode_of(p); b.sched = b.abandon = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P11") { b.checks = CK_CELLS; b.refs = true; b.mode = mode_of(p); b.sched = b.abandon = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P12") { b.checks = CK_CELLS; b.refs = true; b.mode = mode_of(p); b.sched = true; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P13") { a.checks = CK_TEXT; WP x = execute(p, a); u64 f = fin(x.get()); b.checks = CK_TEXT; b.wfaults = true; b.buf = (int)p.p("buf"); b.pfault = (double)p.p("pfault") / 100; WP y = execute(p, b); compare(p, x.get(), y.get(), "with failing streams"); if (fin(y.get()) != f) violate("differs", "objects at the end differ with failing streams"); absorb(y.get()); }
  else if (q == "P14") { b.mode = mode_of(p); b.sched = b.abandon = true; b.mfaults = true; b.wfaults = p.p("pfault") > 0; b.buf = (int)p.p("buf"); b.pfault = (double)p.p("pfault") / 100; WP y = execute(p, b); absorb(y.get()); }
  else if (q == "P15") {
    b.checks = CK_CELLS | CK_RO; b.mode = mode_of(p); b.sched = b.abandon = true; WP y = execute(p, b);
    std::map<std::string, u64> seen;   // the undisturbed repetition gives the same grids
    for (auto& o : p.ops) { auto& r = y->res[o.id]; if (r.state != 1) continue; Op k = o; k.id = 0; k.task = 0; if (k.name[0] == 'd') k.iv.resize(k.name[1] == '3' ? 5 : 4); Plan one; one.ops.push_back(k); std::string key = one.text(); auto it = seen.find(key); if (it == seen.end()) seen[key] = r.dig; else if (it->second != r.dig) violate("differs", "repeating op %d %s gives another grid", o.id, o.name.c_str()); }
    absorb(y.get());
  } else fatal("unknown property %s", q.c_str());
  W = nullptr; sim.plan = nullptr; sim.st.runs++;
}

// ---------------------------------------------------------------- command line
static std::string slurp(const char* f) { std::string s; FILE* h = fopen(f, "r"); if (!h) fatal("cannot read %s", f); char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static void rawout(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += (size_t)k; } }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static std::string stats_json(u64 cum, u64 events) {
  SimStats& s = sim.st; char b[2000];
  snprintf(b, sizeof b, "{\"variant\":\"%s\",\"runs\":%llu,\"ops\":%llu,\"libcalls\":%llu,\"steps\":%llu,\"switches\":%llu,\"nests\":%llu,\"abandons\":%llu,\"stalls\":%llu,\"allocs\":%llu,\"allocfails\":%llu,\"moves\":%llu,\"writes\":%llu,\"wfaults\":%llu,\"capfails\":%llu,\"garbage\":%llu,\"refchecks\":%llu,\"hot\":%llu,\"skipped\":%llu,\"readonly\":%llu,\"tiles\":%llu,\"maxsteps\":%llu,\"edges\":%llu,\"edges_total\":%u,\"statics\":%llu,\"env_reads\":%llu,\"cumulative\":\"%016llx\",\"runs_with_events\":%llu,\"ratios\":\"%s\",\"maxbudget\":%.4f,\"fpcalls\":%llu,\"maxstack\":%llu,\"probes\":{",
    VARIANT, (unsigned long long)s.runs, (unsigned long long)s.ops, (unsigned long long)s.libcalls, (unsigned long long)s.steps, (unsigned long long)s.switches, (unsigned long long)s.nests, (unsigned long long)s.abandons, (unsigned long long)s.stalls, (unsigned long long)s.allocs, (unsigned long long)s.allocfails, (unsigned long long)s.moves, (unsigned long long)s.writes, (unsigned long long)s.wfaults, (unsigned long long)s.capfails, (unsigned long long)s.garbage, (unsigned long long)s.refchecks, (unsigned long long)s.hot, (unsigned long long)s.skipped, (unsigned long long)s.ro, (unsigned long long)s.tiles, (unsigned long long)s.maxsteps, (unsigned long long)edges_covered(), edges_total(), (unsigned long long)lib_statics(), (unsigned long long)env_reads, (unsigned long long)cum, (unsigned long long)events, ratios().c_str(), s.maxbudget, (unsigned long long)s.fpcalls, (unsigned long long)s.maxstack);
  std::string o = b; bool first = true; for (auto& kv : s.probes) { snprintf(b, sizeof b, "%s\"%s\":%llu", first ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second); o += b; first = false; }
  return o + "}}";
}
static std::string digest_lines(u64 run, World* w) {
  std::string o; char b[200];
  for (auto& q : w->res) { Hash h; h.adds(q.second.text); snprintf(b, sizeof b, "%llu %d %d %d %016llx %016llx\n", (unsigned long long)run, q.first, q.second.state, q.second.status, (unsigned long long)q.second.dig, (unsigned long long)h.h); o += b; }
  return o;
}
static WP exec_digest(const Plan& p) { sim.plan = &p; sim.recorded.clear(); Cfg a; base_cfg(p, a); a.taint = true; WP w = execute(p, a); sim.st.runs++; return w; }

int main(int argc, char** argv) {
  fixed_layout(argv); sim_init(); watchdog_arm();
  std::string cmd = argc > 1 ? argv[1] : "";
  auto num = [&](int i) { return i < argc ? strtoull(argv[i], 0, 10) : 0ull; };
  if (cmd == "info") { emit("{\"variant\":\"%s\",\"R3D\":%d,\"R2D\":%d,\"RND\":%d,\"DIM\":%d,\"edges_total\":%u,\"statics\":%llu,\"tls\":%llu}", VARIANT, D3::CAP, D2::CAP, D4::CAP, D4::N, edges_total(), (unsigned long long)lib_statics(), (unsigned long long)tls_bytes()); _exit(0); }
  if (cmd == "gen") { Plan p = generate(argv[2], num(3), num(4)); rawout(1, p.text()); _exit(0); }
  if (cmd == "replay") {
    Plan p; std::string err; if (!p.parse(slurp(argv[2]), err)) fatal("%s", err.c_str());
    if (argc > 3) report_dir = argv[3];
    decide(p); emit("OK trace=%016llx", (unsigned long long)sim.tracehash); _exit(0);
  }
  if (cmd == "digest-plan") { Plan p; std::string err; if (!p.parse(slurp(argv[2]), err)) fatal("%s", err.c_str()); WP w = exec_digest(p); rawout(1, digest_lines(0, w.get())); _exit(0); }
  if (cmd == "digests") {   // PROP seed start stride count OUT
    std::string prop = argv[2]; u64 seed = num(3), start = num(4), stride = num(5), count = num(6); int fd = open(argv[7], O_CREAT | O_TRUNC | O_WRONLY, 0644); report_dir = argc > 8 ? argv[8] : "";
    std::string buf; u64 cum = 0;
    for (u64 k = 0; k < count; ++k) { cur_run_index = start + k * stride; Plan p = generate(prop, seed, cur_run_index); WP w = exec_digest(p); std::string d = digest_lines(cur_run_index, w.get()); Hash h; h.h = cum; h.adds(d); cum = h.h; buf += d; if (buf.size() > 1 << 20) { rawout(fd, buf); buf.clear(); } }
    rawout(fd, buf); close(fd); emit("STATS %s", stats_json(cum, 0).c_str()); _exit(0);
  }
  if (cmd == "run") {       // PROP seed start stride count wall dir
    std::string prop = argv[2]; u64 seed = num(3), start = num(4), stride = num(5), count = num(6); double wall = atof(argv[7]); report_dir = argc > 8 ? argv[8] : "";
    double t0 = now(); u64 cum = 0, evs = 0; std::vector<u64> traces;
    for (u64 k = 0; k < count; ++k) {
      cur_run_index = start + k * stride; Plan p = generate(prop, seed, cur_run_index); u64 f0 = sim.st.capfails + sim.st.allocfails + sim.st.wfaults + sim.st.moves; decide(p);
      if (getenv("SIM_TRACE")) emit("TRACE %llu %016llx", (unsigned long long)cur_run_index, (unsigned long long)sim.tracehash);
      Hash h; h.h = cum; h.add(sim.tracehash); cum = h.h; if (!sim.recorded.empty() || !p.evs.empty() || sim.st.capfails + sim.st.allocfails + sim.st.wfaults + sim.st.moves != f0) { traces.push_back(sim.tracehash); ++evs; }
      if (wall > 0 && (k & 3) == 3 && now() - t0 > wall) break;
    }
    if (!report_dir.empty()) { char path[600]; snprintf(path, sizeof path, "%s/traces.%s.%llu", report_dir.c_str(), VARIANT, (unsigned long long)start); int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644); rawout(fd, std::string((char*)traces.data(), traces.size() * 8)); close(fd);
      snprintf(path, sizeof path, "%s/edges.%s.%llu", report_dir.c_str(), VARIANT, (unsigned long long)start); fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644); rawout(fd, std::string((char*)edge_map(), edges_total() + 1)); close(fd); }
    emit("STATS %s", stats_json(cum, evs).c_str()); _exit(0);
  }
  fatal("usage: info | gen | run | replay | digests");
}
