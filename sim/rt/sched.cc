// Simulated scheduler: threads, OpenMP, locks, clocks, memory-access hooks.
#include <errno.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <unordered_map>
#include <vector>
#include "heap.h"
#include "rt.h"

extern "C" char __executable_start, etext;
namespace rt { uint8_t* g_cov = nullptr;
void Cov(const void* pc) { size_t i = (size_t)((const char*)pc - &__executable_start); if (i < (size_t)(&etext - &__executable_start)) g_cov[i] = 1; } }
namespace sim {
const char* const kFaultNames[kNumFaults] = {
    "team-short", "stall", "eintr", "short-transfer", "eio", "enospc", "emfile", "eacces", "exdev",
    "einval", "mmap-fail", "thread-create-fail", "clock-jump", "crash", "alloc-fail", "corrupt", "delay"};
Scenario* g_scenarios;
void (*g_warmups[64])();
int g_num_warmups;
}  // namespace sim

namespace rt {

Shared* g_sh;
bool g_on;

long Sys(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
               : "rcx", "r11", "memory");
  return r;
}

namespace {

// ---- threads ------------------------------------------------------------------
enum State : uint8_t { kUnused, kRunnable, kBlocked, kDone, kIdle, kDead };
struct WorkShare { uint64_t next, end, incr, chunk; bool up, init; uint64_t single; };
struct Team {
  int n, done, arrived;
  uint64_t gen;
  Team* parent;
  std::vector<WorkShare>* ws;
  uint64_t single_seq;
};
struct Thr {
  int id;
  int go;
  State state;
  bool started, worker, detached, joined, crashable, crashed, in_rt;
  uint64_t acc, picks, next_preempt;
  // OpenMP context
  Team* team;
  int tnum, level, icv, active_level;
  uint32_t ws_seq, single_seq;
  void (*fn)(void*);
  void* data;
  // OS thread
  void* (*pstart)(void*);
  void* parg;
  void* pret;
  pthread_t real;
  const void* wobj;
  uint64_t wake;
  int saved_errno;
  uint32_t rp;  // replay cursor
};
constexpr int kMaxThr = 96;
Thr g_thr[kMaxThr];
int g_nthr;
Thr* g_cur;
__thread Thr* t_self __attribute__((tls_model("initial-exec")));

// ---- run state ------------------------------------------------------------------
Rng g_in, g_sched, g_frng, g_farg, g_clk;
Config g_cfg;
bool g_replay, g_multi, g_profile, g_directed;
int g_live;               // runnable or blocked threads (not idle)
int64_t g_countdown;
uint64_t g_steps, g_step_limit, g_switches, g_trace, g_outcome, g_conflicts;
uint32_t g_preempts, g_max_preempts = 4000;
uint32_t g_epoch = 1;
uint32_t g_fault_enabled, g_faults_injected, g_faults_noted;
uint64_t g_fault_opp[sim::kNumFaults];
uint64_t g_sim_ns;
int64_t g_wall_off;
struct DecKey { uint8_t kind, sub; uint16_t tid; uint64_t key; bool operator<(const DecKey& o) const {
  if (kind != o.kind) return kind < o.kind;
  if (sub != o.sub) return sub < o.sub;
  if (tid != o.tid) return tid < o.tid;
  return key < o.key; } };
std::map<DecKey, uint32_t>* g_rdec;
std::vector<Decision>* g_rpre[kMaxThr];  // replayed preemptions per thread, sorted

int FutexWait(int* p, int v) { return Sys(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0); }
int FutexWake(int* p) { return Sys(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1); }

void Record(uint8_t kind, uint8_t sub, int tid, uint64_t key, uint32_t val) {
  Result& r = g_sh->res;
  if (r.ndec >= kMaxDec) { r.dec_overflow = 1; return; }
  g_sh->out[r.ndec++] = Decision{kind, sub, (uint16_t)tid, val, key};
}

void Arm(Thr* t) {
  if (g_replay) {
    auto* v = g_rpre[t->id];
    t->next_preempt = ~0ull;
    if (v) {
      while (t->rp < v->size() && (*v)[t->rp].key <= t->acc) t->rp++;
      if (t->rp < v->size()) t->next_preempt = (*v)[t->rp].key;
    }
    g_countdown = t->next_preempt == ~0ull ? INT64_MAX : (int64_t)(t->next_preempt - t->acc);
    return;
  }
  if ((g_cfg.mode & 1) && g_preempts < g_max_preempts)
    g_countdown = 1 + g_sched.Below(2 * (uint64_t)g_cfg.mean);
  else
    g_countdown = INT64_MAX;
}

void SwitchTo(Thr* self, Thr* next) {
  if (next == self) { Arm(self); return; }
  g_switches++;
  TraceMix(((uint64_t)self->id << 32 | next->id) ^ (self->acc << 8));
  self->saved_errno = errno;
  g_cur = next;
  __atomic_store_n(&next->go, 1, __ATOMIC_RELEASE);
  FutexWake(&next->go);
  while (!__atomic_load_n(&self->go, __ATOMIC_ACQUIRE)) FutexWait(&self->go, 0);
  self->go = 0;
  errno = self->saved_errno;
  Arm(self);
}

int Runnable(Thr** out, Thr* except) {
  int n = 0;
  for (int i = 0; i < g_nthr; ++i) {
    Thr* t = &g_thr[i];
    if (t->state == kRunnable && t != except) out[n++] = t;
  }
  return n;
}

bool WakeSleepers() {
  uint64_t best = ~0ull;
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].state == kBlocked && g_thr[i].wake && g_thr[i].wake < best) best = g_thr[i].wake;
  if (best == ~0ull) return false;
  if (best > g_sim_ns) g_sim_ns = best;
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].state == kBlocked && g_thr[i].wake && g_thr[i].wake <= g_sim_ns) {
      g_thr[i].state = kRunnable;
      g_thr[i].wake = 0;
    }
  return true;
}
void CheckTimers() {
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].state == kBlocked && g_thr[i].wake && g_thr[i].wake <= g_sim_ns) {
      g_thr[i].state = kRunnable;
      g_thr[i].wake = 0;
    }
}

// |self| cannot or should not go on: choose who runs next.
Thr* PickNext(Thr* self, bool self_ok) {
  Thr* r[kMaxThr];
  int n = Runnable(r, self_ok ? nullptr : self);
  while (n == 0) {
    if (!WakeSleepers()) {
      char b[400];
      int k = snprintf(b, sizeof b, "deadlock: no thread can run;");
      for (int i = 0; i < g_nthr && k < 350; ++i)
        if (g_thr[i].state == kBlocked)
          k += snprintf(b + k, sizeof b - k, " t%d waits", g_thr[i].id);
      EndRun(3, b);
    }
    n = Runnable(r, self_ok ? nullptr : self);
  }
  if (n == 1) return r[0];
  uint64_t key = self->picks++;
  if (g_replay) {
    auto it = g_rdec->find(DecKey{kPick, 0, (uint16_t)self->id, key});
    if (it != g_rdec->end())
      for (int i = 0; i < n; ++i)
        if (r[i]->id == (int)it->second) return r[i];
    return r[0];
  }
  if (g_sh->spec.reference) return r[0];
  if (g_cfg.victim >= 0) {
    // a stalled thread only runs when nobody else can (or, rarely, anyway)
    for (int i = 0; i < n; ++i)
      if (r[i]->id == g_cfg.victim && g_sched.Below(64)) {
        r[i] = r[--n];
        g_sh->res.faults[sim::kStall]++;
        break;
      }
  }
  Thr* p = r[g_sched.Below(n)];
  if (p != r[0] || true) Record(kPick, 0, self->id, key, p->id);
  return p;
}

void Preempt(Thr* self) {
  Thr* r[kMaxThr];
  int n = Runnable(r, self);
  if (!n) { Arm(self); return; }
  Thr* p = r[0];
  if (g_replay) {
    auto* v = g_rpre[self->id];
    if (v && self->rp < v->size()) {
      for (int i = 0; i < n; ++i)
        if (r[i]->id == (int)(*v)[self->rp].val) p = r[i];
      self->rp++;
    }
  } else {
    p = r[g_sched.Below(n)];
    if (p->id == g_cfg.victim && n > 1) p = r[g_sched.Below(n)];
    Record(kPreempt, 0, self->id, self->acc, p->id);
    g_preempts++;
  }
  SwitchTo(self, p);
}

// ---- conflicting-access detection (directs the search, is not a verdict) -----------
struct Cell { uintptr_t word; uint32_t epoch; int16_t rt, wt; uintptr_t rpc, wpc; };
constexpr int kCells = 1 << 15;
Cell g_cells[kCells];
uint64_t g_hot[1 << kHotBits];
uint32_t g_nhot;
bool g_focus;  // only the accesses chosen before the run are hot

inline uint32_t HotIdx(uintptr_t pc) { return (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> (64 - kHotBits)); }
inline bool IsHot(uintptr_t pc) {
  for (uint32_t i = HotIdx(pc);; i = (i + 1) & ((1 << kHotBits) - 1)) {
    if (g_hot[i] == pc) return true;
    if (!g_hot[i]) return false;
  }
}
void MarkHot(uintptr_t pc) {
  if (g_focus) return;
  if (g_nhot > (1u << kHotBits) / 2) return;
  uint32_t i = HotIdx(pc);
  while (g_hot[i] && g_hot[i] != pc) i = (i + 1) & ((1 << kHotBits) - 1);
  if (!g_hot[i]) { g_hot[i] = pc; g_nhot++; }
}

inline bool Track(Thr* self, uintptr_t a, bool w, uintptr_t pc) {
  uintptr_t word = a >> 3;
  Cell& c = g_cells[(word * 0x9E3779B97F4A7C15ull) >> 49];
  if (c.word != word || c.epoch != g_epoch) {
    c = Cell{word, g_epoch, -1, -1, 0, 0};
  }
  bool conflict = false;
  if (c.wt >= 0 && c.wt != self->id) { conflict = true; MarkHot(c.wpc); MarkHot(pc); }
  if (w && c.rt >= 0 && c.rt != self->id) { conflict = true; MarkHot(c.rpc); MarkHot(pc); }
  if (w) { c.wt = self->id; c.wpc = pc; } else { c.rt = self->id; c.rpc = pc; }
  return conflict;
}

__attribute__((noinline)) void SlowAccess(Thr* self, uintptr_t a, bool w, uintptr_t pc) {
  bool pre = false;
  if (g_directed || g_profile) {
    if (Track(self, a, w, pc)) g_conflicts++;
    if (g_directed && g_preempts < g_max_preempts && IsHot(pc) && g_sched.Below(g_cfg.hot_den) == 0) pre = true;
  }
  if (--g_countdown <= 0) pre = true;
  if (pre) Preempt(self);
}

inline void Access(const void* p, unsigned n, bool w, const void* pc) {
  if (__builtin_expect(g_cov != nullptr, 0)) Cov(pc);
  if (!g_on) return;
  uintptr_t a = (uintptr_t)p;
  if (a - kArenaBase < kArenaSize) {
    const uint8_t* s = (const uint8_t*)(kShadowBase + ((a - kArenaBase) >> 3));
    unsigned off = a & 7;
    if (__builtin_expect(s[0] != 8 || (off + n > 8 && s[1] != 8), 0)) {
      if (!HeapAccessible(p, n)) MemError(p, n, w, pc);
    }
  }
  if (++g_steps > g_step_limit) EndRun(4, "no progress: step limit exceeded");
  if (g_multi) {
    Thr* self = t_self;
    self->acc++;
    if (self->in_rt) return;
    SlowAccess(self, a, w, (uintptr_t)pc);
  }
}

void Point() {  // synchronisation operation: a possible preemption
  if (!g_on || !g_multi) return;
  Thr* self = t_self;
  if (!self) return;
  self->acc++;
  if (g_replay) {
    if (--g_countdown <= 0) Preempt(self);
    return;
  }
  if ((g_cfg.mode && g_preempts < g_max_preempts && g_sched.Below(4) == 0) || --g_countdown <= 0) Preempt(self);
}

Thr* NewThr() {
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].state == kUnused) return &g_thr[i];
  if (g_nthr >= kMaxThr) EndRun(4, "too many simulated threads");
  Thr* t = &g_thr[g_nthr];
  t->id = g_nthr++;
  return t;
}
void Recount() {
  int n = 0;
  for (int i = 0; i < g_nthr; ++i) n += g_thr[i].state == kRunnable || g_thr[i].state == kBlocked;
  g_live = n;
  g_multi = n > 1;
  if ((uint32_t)n > g_sh->res.maxthreads) g_sh->res.maxthreads = n;
}

typedef int (*pcreate_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
pcreate_t RealCreate() {
  static pcreate_t f = (pcreate_t)dlsym(RTLD_NEXT, "pthread_create");
  return f;
}

// What variables that are not initialised hold: the stack below is filled as the heap is.
__attribute__((noinline)) void FillStack(size_t bytes) {
  volatile uint64_t* p = (volatile uint64_t*)__builtin_alloca(bytes);
  Rng r{g_cfg.junk};
  bool mixed = g_cfg.junk != (g_cfg.junk & 0xFF) * 0x0101010101010101ull;
  for (size_t i = 0; i < bytes / 8; ++i) {
    uint64_t v = mixed ? r.Next() : g_cfg.junk;
    p[i] = mixed && (v & 3) == 0 ? 0 : v;
  }
}

// Body of every real thread backing a simulated one; never returns.
void* Trampoline(void* p) {
  Thr* self = (Thr*)p;
  t_self = self;
  while (!__atomic_load_n(&self->go, __ATOMIC_ACQUIRE)) FutexWait(&self->go, 0);
  self->go = 0;
  FillStack(48 << 10);
  Arm(self);
  for (;;) {
    if (self->worker) {
      self->fn(self->data);
      // implicit barrier at the end of the region
      Team* tm = self->team;
      if (++tm->done == tm->n) Wake(tm);
      self->state = kIdle;
      self->team = nullptr;
    } else {
      self->pret = self->pstart(self->parg);
      self->state = kDone;
      Wake(self);
      if (self->detached) self->joined = true;
    }
    Recount();
    Thr* n = PickNext(self, false);
    // hand over; resumed only when reused
    SwitchTo(self, n);
  }
  return nullptr;
}

void StartReal(Thr* t) {
  if (t->started) return;
  t->started = true;
  HeapScope hs;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  bool on = g_on;
  g_on = false;
  int rc = RealCreate()(&t->real, &at, Trampoline, t);
  g_on = on;
  if (rc) EndRun(70, "runtime: cannot create a real thread");
}

// ---- OpenMP -----------------------------------------------------------------------
int g_icv_default = 1;

Team* TeamOf(Thr* t) { return t->team; }

void Parallel(void (*fn)(void*), void* data, unsigned want, const WorkShare* first) {
  if (!g_on || !t_self) {  // outside a run: a team of one
    fn(data);
    return;
  }
  Thr* self = t_self;
  int n = want ? (int)want : self->icv;
  if (n > 32) n = 32;
  if (self->active_level >= 1) n = 1;
  if (n > 1) {
    uint32_t arg;
    if (Decide(sim::kTeamShort, &arg, n - 1)) n = 1 + (int)arg;  // 1..n-1
  }
  Team tm{};
  tm.n = n;
  tm.parent = self->team;
  HeapScope* hs = new (alloca(sizeof(HeapScope))) HeapScope;
  std::vector<WorkShare> ws;
  tm.ws = &ws;
  if (first) ws.push_back(*first);
  int otn = self->tnum, oal = self->active_level;
  uint32_t ows = self->ws_seq, oss = self->single_seq;
  hs->~HeapScope();
  Team* ot = self->team;
  self->team = &tm;
  self->tnum = 0;
  self->level++;
  self->ws_seq = self->single_seq = 0;
  if (n > 1) {
    self->active_level++;
    g_epoch++;
    for (int i = 1; i < n; ++i) {
      Thr* w = nullptr;
      for (int k = 0; k < g_nthr; ++k)
        if (g_thr[k].state == kIdle) { w = &g_thr[k]; break; }
      if (!w) { w = NewThr(); w->worker = true; }
      w->state = kRunnable;
      w->fn = fn;
      w->data = data;
      w->team = &tm;
      w->tnum = i;
      w->level = self->level;
      w->active_level = self->active_level;
      w->icv = self->icv;
      w->ws_seq = w->single_seq = 0;
      StartReal(w);
    }
    Recount();
    SwitchTo(self, PickNext(self, true));
    fn(data);
    ++tm.done;
    while (tm.done < tm.n) Block(&tm);
    g_epoch++;
  } else {
    fn(data);
  }
  self->team = ot;
  self->tnum = otn;
  self->level--;
  self->active_level = oal;
  self->ws_seq = ows;
  self->single_seq = oss;
  {
    HeapScope h2;
    std::vector<WorkShare>().swap(ws);
  }
  Recount();
  Arm(self);
}

void Barrier() {
  if (!g_on || !t_self) return;
  Thr* self = t_self;
  Team* tm = self->team;
  if (!tm || tm->n <= 1) return;
  uint64_t gen = tm->gen;
  if (++tm->arrived == tm->n) {
    tm->arrived = 0;
    tm->gen++;
    g_epoch++;
    Wake(&tm->gen);
    Point();
  } else {
    while (tm->gen == gen) Block(&tm->gen);
  }
}

WorkShare g_solo_ws;
WorkShare* EnterWs(uint64_t start, uint64_t end, uint64_t incr, uint64_t chunk, bool up) {
  Thr* self = t_self;
  if (!g_on || !self || !self->team) {
    g_solo_ws = WorkShare{start, end, incr, chunk, up, true, 0};
    return &g_solo_ws;
  }
  HeapScope hs;
  uint32_t i = self->ws_seq++;
  if (self->team->ws->size() <= i) self->team->ws->resize(i + 1);
  WorkShare& w = (*self->team->ws)[i];
  if (!w.init) w = WorkShare{start, end, incr, chunk, up, true, 0};
  return &w;
}
WorkShare* CurWs() {
  Thr* self = t_self;
  if (!g_on || !self || !self->team) return &g_solo_ws;
  return &(*self->team->ws)[self->ws_seq - 1];
}
template <typename T>
bool NextChunk(WorkShare* w, T* is, T* ie) {
  Point();
  uint64_t span = w->chunk * w->incr;
  if (w->up) {
    if ((T)w->next >= (T)w->end) return false;
    *is = (T)w->next;
    uint64_t left = w->end - w->next;
    uint64_t nx = span >= left ? w->end : w->next + span;
    *ie = (T)nx;
    w->next = nx;
  } else {
    if ((T)w->next <= (T)w->end) return false;
    *is = (T)w->next;
    uint64_t left = w->next - w->end, sp = (uint64_t)0 - span;
    uint64_t nx = sp >= left ? w->end : w->next - sp;
    *ie = (T)nx;
    w->next = nx;
  }
  return true;
}

// ---- locks ---------------------------------------------------------------------------
struct Lock { int owner = -1, depth = 0, readers = 0; };
std::unordered_map<const void*, Lock>* g_locks;
Lock& L(const void* p) {
  HeapScope hs;
  return (*g_locks)[p];
}
void LockX(const void* m) {
  Point();
  Thr* self = t_self;
  while (true) {
    Lock& l = L(m);
    if (l.owner < 0 && l.readers == 0) { l.owner = self->id; l.depth = 1; return; }
    if (l.owner == self->id) EndRun(3, "deadlock: a thread locks a mutex it already holds");
    Block(m);
  }
}
bool TryX(const void* m) {
  Point();
  Lock& l = L(m);
  if (l.owner >= 0 || l.readers) return false;
  l.owner = t_self->id;
  return true;
}
void UnlockX(const void* m) {
  Lock& l = L(m);
  if (l.owner != t_self->id) EndRun(1, "a thread unlocks a mutex it does not hold");
  l.owner = -1;
  Wake(m);
  Point();
}
void LockS(const void* m) {
  Point();
  while (true) {
    Lock& l = L(m);
    if (l.owner < 0) { l.readers++; return; }
    Block(m);
  }
}
void UnlockS(const void* m) {
  Lock& l = L(m);
  if (--l.readers == 0) Wake(m);
  Point();
}

}  // namespace

bool InSim() { return g_on && t_self; }
int CurTid() { return t_self ? t_self->id : 0; }
void TraceMix(uint64_t v) { g_trace = Mix(g_trace, v); }

void Block(const void* obj) {
  Thr* self = t_self;
  self->wobj = obj;
  self->state = kBlocked;
  Thr* n = PickNext(self, false);
  SwitchTo(self, n);
}
void Wake(const void* obj) {
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].state == kBlocked && g_thr[i].wobj == obj) {
      g_thr[i].state = kRunnable;
      g_thr[i].wake = 0;
    }
}
void SleepUntil(uint64_t ns) {
  Thr* self = t_self;
  static char never;
  self->wobj = &never;
  self->wake = ns ? ns : 1;
  self->state = kBlocked;
  Thr* n = PickNext(self, true);
  SwitchTo(self, n);
}
void AdvanceTime(uint64_t ns) { g_sim_ns += ns; CheckTimers(); }

bool Decide(sim::Fault f, uint32_t* arg, uint32_t argmax) {
  if (!g_on) return false;
  if (!(g_fault_enabled & sim::Bit(f)) && f != sim::kTeamShort) return false;
  uint64_t opp = g_fault_opp[f]++;
  uint32_t val = 0;
  if (g_replay) {
    auto it = g_rdec->find(DecKey{kFault, (uint8_t)f, 0, opp});
    if (it == g_rdec->end()) return false;
    val = it->second;
  } else {
    if (g_sh->spec.reference) return false;
    if (!(g_cfg.fault_mask & sim::Bit(f))) return false;
    if (f != sim::kTeamShort && g_faults_injected >= g_cfg.fault_max) return false;
    if (g_frng.Below(f == sim::kTeamShort ? 3 : g_cfg.fault_den)) return false;
    val = (uint32_t)g_frng.Next();
    Record(kFault, f, 0, opp, val);
  }
  if (f != sim::kTeamShort) g_faults_injected++;
  g_sh->res.faults[f]++;
  TraceMix(0xF000 + f + (opp << 16));
  g_farg.s = Mix(val, 77);
  if (arg) *arg = argmax ? val % argmax : val;
  return true;
}

void SyscallPoint() {
  if (!InSim()) return;
  Thr* self = t_self;
  if (self->crashable && Decide(sim::kCrash, nullptr, 0)) {
    self->crashed = true;
    self->state = kDead;
    VfsCrashThread(self->id);
    Wake(self);
    Recount();
    Thr* n = PickNext(self, false);
    SwitchTo(self, n);
    __builtin_trap();
  }
  Point();
}

bool g_abort_ok;
void EndRun(int status, const char* msg) {
  g_on = false;
  Result& r = g_sh->res;
  r.status = status;
  if (msg) {
    size_t n = strlen(msg);
    if (n >= sizeof r.msg) n = sizeof r.msg - 1;
    memcpy(r.msg, msg, n);
    r.msg[n] = 0;
  }
  r.outcome = g_outcome;
  r.trace = g_trace;
  r.steps = g_steps;
  r.switches = g_switches;
  r.sim_ns = g_sim_ns;
  r.conflicts = g_conflicts;
  r.fs_ops = sim::fs::Ops();
  if (g_profile || (g_directed && !g_focus)) {
    uint32_t n = 0;
    for (uint64_t h : g_hot) if (h && n < (1u << kHotBits)) g_sh->hot_out[n++] = h;
    g_sh->nhot_out = n;
  }
  Sys(SYS_exit_group, 0);
  __builtin_unreachable();
}

void MemError(const void* p, unsigned size, bool write, const void* pc) {
  g_on = false;
  char b[256];
  snprintf(b, sizeof b, "memory error: %s of %u bytes outside any live allocation (heap overflow or use after free) at code %p", write ? "write" : "read", size, pc);
  EndRun(5, b);
}

static void OnSignal(int sig, siginfo_t*, void* uc) {
  char b[200];
  void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  if (sig == SIGABRT && g_abort_ok) EndRun(0, nullptr);
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT (abort, failed CHECK or uncaught exception)" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGBUS";
  if (sig == SIGABRT) snprintf(b, sizeof b, "crash: %s", n);
  else snprintf(b, sizeof b, "crash: %s at code %p", n, pc);
  g_sh->res.sig = sig;
  EndRun(2, b);
}

static void Derive(const Spec& sp, Config* c, const sim::Scenario* sc) {
  Rng r{Mix(sp.sched_seed, 0xC0)};
  r.Next();
  static const int kN[] = {1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 13, 16};
  bool omp = sc->kind & sim::kOmp, mt = sc->kind & sim::kMt;
  c->threads = omp ? kN[r.Below(sizeof kN / sizeof *kN)] : 1;
  static const uint32_t kMean[] = {5, 20, 80, 300, 1000, 4000, 20000, 100000};
  c->mean = kMean[r.Below(8)];
  static const uint32_t kHot[] = {1, 1, 2, 4, 16, 64, 256};
  c->hot_den = kHot[r.Below(7)];
  c->mode = (omp || mt) ? (int)r.Below(4) : 0;
  c->victim = (omp || mt) && r.Below(4) == 0 ? (int)r.Below(c->threads > 1 ? c->threads : 3) : -1;
  static const uint64_t kJunk[] = {0xCDCDCDCDCDCDCDCDull, 0, ~0ull, 0x0101010101010101ull, 0x7FFFFFFFFFFFFFFFull};
  uint64_t j = r.Below(8);
  c->junk = j < 5 ? kJunk[j] : r.Next();
  static const uint32_t kDen[] = {1, 2, 3, 5, 8, 16, 32, 100};
  c->fault_den = kDen[r.Below(8)];
  static const uint32_t kMax[] = {1, 1, 1, 2, 3, 8, 1000};
  c->fault_max = kMax[r.Below(7)];
  if (c->fault_den == 1 && c->fault_max > 8) c->fault_den = 2;
  c->fault_mask = r.Below(8) == 0 ? 0 : (r.Below(3) == 0 ? ~0ull : r.Next());
  if (r.Below(4)) c->fault_mask &= ~(uint64_t)sim::Bit(sim::kTeamShort);
  else c->fault_mask |= sim::Bit(sim::kTeamShort);
  c->clock_skew = (uint32_t)r.Next();
}

void ChildMain(Shared* sh) {
  g_sh = sh;
  Spec& sp = sh->spec;
  memset(&sh->res, 0, sizeof sh->res);
  const sim::Scenario* sc = sim::g_scenarios;
  for (int i = 0; i < sp.scenario; ++i) sc = sc->next;
  {
    stack_t ss{};
    ss.ss_size = 65536;
    ss.ss_sp = (void*)Sys(SYS_mmap, 0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = OnSignal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) sigaction(s, &sa, nullptr);
  }
  g_replay = sp.replay;
  if (sp.replay) {
    g_cfg = sp.cfg;
  } else if (sp.reference) {
    g_cfg = Config{};
    g_cfg.threads = 1;
    g_cfg.victim = -1;
    g_cfg.junk = 0xCDCDCDCDCDCDCDCDull;
    g_cfg.mean = 1000;
    g_cfg.hot_den = 1;
    g_cfg.fault_den = 1;
  } else {
    Derive(sp, &g_cfg, sc);
    if (sp.profile) { g_cfg.threads = (sc->kind & sim::kOmp) ? 4 : 1; g_cfg.mode = 0; g_cfg.victim = -1; }
  }
  if (sp.use_hot == 2 && !sp.replay) {
    g_cfg.mode |= 2;
    if (g_cfg.hot_den > 4) g_cfg.hot_den = 1;
  }
  sh->res.cfg = g_cfg;
  g_profile = sp.profile;
  g_directed = !g_replay && !sp.reference && (g_cfg.mode & 2);
  if (sp.use_hot && g_directed) {
    Rng pick{Mix(sp.sched_seed, 6)};
    bool few = sp.use_hot == 2 && sh->nhot;
    uint64_t n = few ? 1ull << pick.Below(5) : sh->nhot;
    for (uint64_t i = 0; i < n; ++i) MarkHot(sh->hot[few ? pick.Below(sh->nhot) : i]);
    g_focus = few;
  }
  g_in.s = Mix(sp.input_seed, 1);
  g_sched.s = Mix(sp.sched_seed, 2);
  g_frng.s = Mix(sp.sched_seed, 3);
  g_farg.s = Mix(sp.sched_seed, 4);
  g_clk.s = Mix(Mix(g_cfg.clock_skew, 5), sp.input_seed);
  g_step_limit = sp.step_limit ? sp.step_limit : 4000000000ull;
  g_sim_ns = 1000000000ull * 1000;
  g_wall_off = 1700000000ll * 1000000000ll;
  g_outcome = 0x1234;
  g_locks = new std::unordered_map<const void*, Lock>();
  if (g_replay) {
    g_rdec = new std::map<DecKey, uint32_t>();
    for (int i = 0; i < sp.ndec; ++i) {
      const Decision& d = sh->in[i];
      if (d.kind == kPreempt) {
        if (d.tid >= kMaxThr) continue;
        if (!g_rpre[d.tid]) g_rpre[d.tid] = new std::vector<Decision>();
        g_rpre[d.tid]->push_back(d);
      } else {
        (*g_rdec)[DecKey{d.kind, d.sub, d.tid, d.key}] = d.val;
      }
    }
  }
  memset(g_thr, 0, sizeof g_thr);
  g_nthr = 0;
  Thr* m = NewThr();
  m->state = kRunnable;
  m->started = true;
  m->icv = g_cfg.threads;
  g_icv_default = g_cfg.threads;
  m->real = pthread_self();
  t_self = m;
  g_cur = m;
  VfsReset();
  HeapEnterRun(g_cfg.junk);
  Recount();
  Arm(m);
  FillStack(192 << 10);
  g_on = true;
  sc->fn();
  EndRun(0, "");
}

}  // namespace rt

// ---- sim:: -------------------------------------------------------------------------
namespace sim {
using namespace rt;
__thread uint64_t t_stream __attribute__((tls_model("initial-exec")));
__thread bool t_has_stream __attribute__((tls_model("initial-exec")));
Stream::Stream(uint64_t seed) { t_stream = Mix(seed, 11); t_has_stream = true; }
Stream::~Stream() { t_has_stream = false; }
uint64_t Rand() {
  if (!t_has_stream) return g_in.Next();
  Rng r{t_stream};
  uint64_t v = r.Next();
  t_stream = r.s;
  return v;
}
void Fail(const char* fmt, ...) {
  HeapScope hs;
  char b[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  EndRun(1, b);
}
void Outcome(const void* p, size_t n) {
  const uint8_t* b = (const uint8_t*)p;
  uint64_t h = g_outcome ^ n;
  while (n >= 8) {
    uint64_t v;
    memcpy(&v, b, 8);
    h = (h ^ v) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    b += 8;
    n -= 8;
  }
  while (n--) h = (h ^ *b++) * 0x100000001B3ull;
  g_outcome = h ^ (h >> 31);
}
void Describe(const char* fmt, ...) {
  HeapScope hs;
  size_t k = strlen(g_sh->res.desc);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_sh->res.desc + k, sizeof(g_sh->res.desc) - k, fmt, ap);
  va_end(ap);
}
void Count(const char* what, uint64_t n) {
  Result& r = g_sh->res;
  for (int i = 0; i < r.ncounters; ++i)
    if (!strcmp(r.counters[i].name, what)) { r.counters[i].n += n; return; }
  if (r.ncounters >= 32) return;
  strncpy(r.counters[r.ncounters].name, what, 39);
  r.counters[r.ncounters++].n = n;
}
int Threads() { return g_cfg.threads; }
void EnableFaults(uint32_t m) { g_fault_enabled = m; }
void DisableFaults() { g_fault_enabled = 0; }
uint32_t FaultsInjected() { return g_faults_injected + g_faults_noted; }
bool FaultAt(Fault f) { return Decide(f, nullptr, 0); }
uint64_t FaultArg(uint64_t n) { return g_farg.Below(n); }
void NoteFault(Fault f) { g_sh->res.faults[f]++; g_faults_noted++; }
bool Reference() { return g_sh->spec.reference; }
uint64_t NowNs() { return g_sim_ns; }
int64_t WallNs() { return (int64_t)g_sim_ns + g_wall_off; }
void Yield() { Point(); }
int SelfId() { return t_self ? t_self->id : -1; }
uint64_t LiveThreads() {
  uint64_t n = 0;
  for (int i = 1; i < g_nthr; ++i)
    n += !g_thr[i].worker && (g_thr[i].state == kRunnable || g_thr[i].state == kBlocked);
  return n;
}
void MustAbort(const char* what, std::function<void()> fn) {
  rt::g_abort_ok = true;
  fn();
  rt::g_abort_ok = false;
  Fail("%s was not refused", what);
}
bool AcceptsOrAborts(const std::function<bool()>& fn) {
  rt::g_abort_ok = true;
  bool r = fn();
  rt::g_abort_ok = false;
  return r;
}
bool RunCrashable(std::function<void()> fn) {
  Thr* self = t_self;
  Thr* t = NewThr();
  auto body = [](void* p) -> void* {
    (*(std::function<void()>*)p)();
    return nullptr;
  };
  bool started = t->started;
  pthread_t real = t->real;
  int id = t->id;
  *t = Thr{};
  t->id = id;
  t->started = started;
  t->real = real;
  t->crashable = true;
  t->icv = g_icv_default;
  t->pstart = body;
  t->parg = &fn;
  t->state = kRunnable;
  StartReal(t);
  Recount();
  while (t->state != kDone && t->state != kDead) Block(t);
  bool ok = t->state == kDone;
  Recount();
  (void)self;
  return ok;
}
}  // namespace sim

using namespace rt;

// ---- instrumentation hooks -----------------------------------------------------------
extern "C" {
#define PC __builtin_return_address(0)
#define RW(n)                                                        \
  void __tsan_read##n(void* p) { Access(p, n, false, PC); }          \
  void __tsan_write##n(void* p) { Access(p, n, true, PC); }          \
  void __tsan_volatile_read##n(void* p) { Access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { Access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { Access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { Access(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { Access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) Access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) Access(p, n, true, PC); }
void __tsan_init() {}
void __tsan_func_entry(void*) { if (__builtin_expect(g_cov != nullptr, 0)) Cov(PC); }
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { Access(p, 8, true, PC); }
void __tsan_vptr_read(void* p) { Access(p, 8, false, PC); }
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
#define AT(b, t)                                                                                       \
  t __tsan_atomic##b##_load(const volatile t* p, int) { Access((const void*)p, b / 8, false, PC); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##b##_store(volatile t* p, t v, int) { Access((const void*)p, b / 8, true, PC); __atomic_store_n(p, v, 5); }  \
  t __tsan_atomic##b##_exchange(volatile t* p, t v, int) { Access((const void*)p, b / 8, true, PC); return __atomic_exchange_n(p, v, 5); } \
  t __tsan_atomic##b##_fetch_add(volatile t* p, t v, int) { Access((const void*)p, b / 8, true, PC); return __atomic_fetch_add(p, v, 5); } \
  t __tsan_atomic##b##_fetch_sub(volatile t* p, t v, int) { Access((const void*)p, b / 8, true, PC); return __atomic_fetch_sub(p, v, 5); } \
  t __tsan_atomic##b##_fetch_and(volatile t* p, t v, int) { Access((const void*)p, b / 8, true, PC); return __atomic_fetch_and(p, v, 5); } \
  t __tsan_atomic##b##_fetch_or(volatile t* p, t v, int) { Access((const void*)p, b / 8, true, PC); return __atomic_fetch_or(p, v, 5); }   \
  t __tsan_atomic##b##_fetch_xor(volatile t* p, t v, int) { Access((const void*)p, b / 8, true, PC); return __atomic_fetch_xor(p, v, 5); } \
  t __tsan_atomic##b##_fetch_nand(volatile t* p, t v, int) { Access((const void*)p, b / 8, true, PC); return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t* p, t* e, t v, int, int) {                  \
    Access((const void*)p, b / 8, true, PC);                                                           \
    bool ok = __atomic_compare_exchange_n(p, e, v, 0, 5, 5);                                           \
    return ok;                                                                                         \
  }                                                                                                    \
  int __tsan_atomic##b##_compare_exchange_weak(volatile t* p, t* e, t v, int, int) {                    \
    Access((const void*)p, b / 8, true, PC);                                                           \
    return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);                                              \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// ---- OpenMP ----------------------------------------------------------------------------
int omp_get_max_threads(void) { return InSim() ? t_self->icv : 1; }
void omp_set_num_threads(int n) { if (InSim() && n > 0) t_self->icv = n; }
int omp_get_num_threads(void) { return InSim() && t_self->team ? t_self->team->n : 1; }
int omp_get_thread_num(void) { return InSim() ? t_self->tnum : 0; }
int omp_in_parallel(void) { return InSim() && t_self->active_level > 0; }
int omp_get_num_procs(void) { return 8; }
int omp_get_level(void) { return InSim() ? t_self->level : 0; }
int omp_get_active_level(void) { return InSim() ? t_self->active_level : 0; }
int omp_get_thread_limit(void) { return 1 << 20; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
double omp_get_wtime(void) { return InSim() ? sim::NowNs() * 1e-9 : 0; }
void omp_init_lock(void** l) { *l = nullptr; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { if (InSim()) LockX(l); }
void omp_unset_lock(void** l) { if (InSim()) UnlockX(l); }
int omp_test_lock(void** l) { return InSim() ? TryX(l) : 1; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { Parallel(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { Parallel(fn, data, n, nullptr); return 1; }
void GOMP_barrier(void) { Barrier(); }
static char g_crit, g_atom;
void GOMP_critical_start(void) { if (InSim()) LockX(&g_crit); }
void GOMP_critical_end(void) { if (InSim()) UnlockX(&g_crit); }
void GOMP_critical_name_start(void** p) { if (InSim()) LockX(p); }
void GOMP_critical_name_end(void** p) { if (InSim()) UnlockX(p); }
void GOMP_atomic_start(void) { if (InSim()) LockX(&g_atom); }
void GOMP_atomic_end(void) { if (InSim()) UnlockX(&g_atom); }
bool GOMP_single_start(void) {
  if (!InSim() || !t_self->team || t_self->team->n == 1) return true;
  Point();
  uint32_t my = t_self->single_seq++;
  if (t_self->team->single_seq == my) { t_self->team->single_seq++; return true; }
  return false;
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  if (cpy) {
    char buf[size + align];
    char* arg = (char*)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
    cpy(arg, data);
    fn(arg);
  } else {
    fn(data);
  }
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { Point(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
#define LOOPS(kind)                                                                                              \
  bool GOMP_loop_##kind##_start(long s, long e, long inc, long ch, long* is, long* ie) {                          \
    return NextChunk<long>(EnterWs(s, e, inc, ch ? ch : 1, inc > 0), is, ie); }                                   \
  bool GOMP_loop_##kind##_next(long* is, long* ie) { return NextChunk<long>(CurWs(), is, ie); }                   \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long ch, unsigned) { \
    WorkShare w{(uint64_t)s, (uint64_t)e, (uint64_t)inc, (uint64_t)(ch ? ch : 1), inc > 0, true, 0};              \
    if (!InSim()) { g_solo_ws = w; fn(d); return; }                                                              \
    Parallel(fn, d, n, &w); }                                                                                    \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc,  \
      unsigned long long ch, unsigned long long* is, unsigned long long* ie) {                                    \
    return NextChunk<unsigned long long>(EnterWs(s, e, inc, ch ? ch : 1, up), is, ie); }                          \
  bool GOMP_loop_ull_##kind##_next(unsigned long long* is, unsigned long long* ie) {                              \
    return NextChunk<unsigned long long>(CurWs(), is, ie); }
LOOPS(dynamic) LOOPS(guided) LOOPS(static) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
// runtime/auto schedules carry no chunk argument
#define RLOOPS(kind)                                                                                             \
  bool GOMP_loop_##kind##_start(long s, long e, long inc, long* is, long* ie) {                                   \
    return NextChunk<long>(EnterWs(s, e, inc, 1, inc > 0), is, ie); }                                             \
  bool GOMP_loop_##kind##_next(long* is, long* ie) { return NextChunk<long>(CurWs(), is, ie); }                   \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) {    \
    WorkShare w{(uint64_t)s, (uint64_t)e, (uint64_t)inc, 1, inc > 0, true, 0};                                    \
    Parallel(fn, d, n, &w); }                                                                                    \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc,  \
      unsigned long long* is, unsigned long long* ie) {                                                           \
    return NextChunk<unsigned long long>(EnterWs(s, e, inc, 1, up), is, ie); }                                    \
  bool GOMP_loop_ull_##kind##_next(unsigned long long* is, unsigned long long* ie) {                              \
    return NextChunk<unsigned long long>(CurWs(), is, ie); }
RLOOPS(runtime) RLOOPS(nonmonotonic_runtime) RLOOPS(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { Barrier(); }
void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_start(unsigned n) {
  unsigned long long is, ie;
  return NextChunk<unsigned long long>(EnterWs(1, n + 1, 1, 1, true), &is, &ie) ? (unsigned)is : 0;
}
unsigned GOMP_sections_next(void) {
  unsigned long long is, ie;
  return NextChunk<unsigned long long>(CurWs(), &is, &ie) ? (unsigned)is : 0;
}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) {
  WorkShare w{1, count + 1, 1, 1, true, true, 0};
  Parallel(fn, d, n, &w);
}
void GOMP_sections_end(void) { Barrier(); }
void GOMP_sections_end_nowait(void) {}

// ---- one-time initialisation of function-local statics ---------------------------------
int __cxa_guard_acquire(long long int* gp) {
  char* g = (char*)gp;
  if (!InSim()) { if (*g) return 0; return 1; }
  Point();
  while (true) {
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
    if (!g[1]) { g[1] = 1; return 1; }
    Block(g);
  }
}
void __cxa_guard_release(long long int* gp) {
  char* g = (char*)gp;
  g[1] = 0;
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
  if (InSim()) { Wake(g); Point(); }
}
void __cxa_guard_abort(long long int* gp) {
  char* g = (char*)gp;
  g[1] = 0;
  if (InSim()) Wake(g);
}


// ---- POSIX threads ------------------------------------------------------------------------
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!InSim()) return RealCreate()(out, at, fn, arg);
  Point();
  if (Decide(sim::kThreadFail, nullptr, 0)) return EAGAIN;
  Thr* t = NewThr();
  int id = t->id;
  bool started = t->started;
  pthread_t real = t->real;
  *t = Thr{};
  t->id = id;
  t->started = started;
  t->real = real;
  t->pstart = fn;
  t->parg = arg;
  t->icv = g_icv_default;
  t->crashable = false;
  if (at) {
    int ds = 0;
    pthread_attr_getdetachstate(at, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
  }
  t->state = kRunnable;
  StartReal(t);
  *out = t->real;
  Recount();
  Arm(t_self);
  Point();
  return 0;
}
static Thr* ByReal(pthread_t p) {
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].started && g_thr[i].real == p) return &g_thr[i];
  return nullptr;
}
int pthread_join(pthread_t p, void** ret) {
  if (!InSim()) {
    static auto f = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
    return f(p, ret);
  }
  Point();
  Thr* t = ByReal(p);
  if (!t || t->joined) EndRun(1, "pthread_join: not a joinable thread (already joined or detached)");
  if (t->detached) EndRun(1, "pthread_join on a detached thread");
  while (t->state != kDone) Block(t);
  t->joined = true;
  if (ret) *ret = t->pret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!InSim()) {
    static auto f = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
    return f(p);
  }
  Thr* t = ByReal(p);
  if (!t || t->joined || t->detached) EndRun(1, "pthread_detach: thread already joined or detached");
  t->detached = true;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!InSim()) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); return f(m); }
  LockX(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!InSim()) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); return f(m); }
  return TryX(m) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!InSim()) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return f(m); }
  UnlockX(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!InSim()) { static auto f = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait"); return f(c, m); }
  Lock& l = L(m);
  l.owner = -1;
  Wake(m);
  Block(c);
  LockX(m);
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!InSim()) { static auto f = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_signal"); return f(c); }
  Wake(c);  // spurious wake-ups are allowed
  Point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!InSim()) { static auto f = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_broadcast"); return f(c); }
  Wake(c);
  Point();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!InSim()) { static auto f = (int (*)(pthread_once_t*, void (*)(void)))dlsym(RTLD_NEXT, "pthread_once"); return f(o, fn); }
  LockX(o);
  if (*o != 2) { fn(); *o = 2; }
  UnlockX(o);
  return 0;
}
int sched_yield(void) {
  if (!InSim()) return (int)Sys(SYS_sched_yield);
  Point();
  return 0;
}

// ---- absl::Mutex (link-time wrapped) ---------------------------------------------------------
#define WRAPV(sym, simcall)                          \
  void __real_##sym(void*);                          \
  void __wrap_##sym(void* m) { if (InSim()) { simcall(m); return; } __real_##sym(m); }
WRAPV(_ZN4absl7debian35Mutex4LockEv, LockX)
WRAPV(_ZN4absl7debian35Mutex6UnlockEv, UnlockX)
WRAPV(_ZN4absl7debian35Mutex10ReaderLockEv, LockS)
WRAPV(_ZN4absl7debian35Mutex12ReaderUnlockEv, UnlockS)
bool __real__ZN4absl7debian35Mutex7TryLockEv(void*);
bool __wrap__ZN4absl7debian35Mutex7TryLockEv(void* m) { return InSim() ? TryX(m) : __real__ZN4absl7debian35Mutex7TryLockEv(m); }
void __real__ZN4absl7debian35MutexD1Ev(void*);
void __wrap__ZN4absl7debian35MutexD1Ev(void* m) {
  if (InSim()) {
    auto it = g_locks->find(m);
    if (it != g_locks->end()) {
      if (it->second.owner >= 0) EndRun(1, "a mutex is destroyed while locked");
      HeapScope hs;
      g_locks->erase(it);
    }
    return;
  }
  __real__ZN4absl7debian35MutexD1Ev(m);
}

// ---- clocks ------------------------------------------------------------------------------------
static void Tick() {
  AdvanceTime(50 + g_clk.Below(2000));
  uint32_t a;
  if (Decide(sim::kClockJump, &a, 0)) {
    static const int64_t kJ[] = {1, -1, 60, -60, 3600, -3600, 86400ll * 365, -86400ll * 365};
    g_wall_off += kJ[a % 8] * 1000000000ll + (int64_t)(a >> 8) * 37;
  }
  if (Decide(sim::kDelay, &a, 1000000)) AdvanceTime((uint64_t)a * 10000);
}
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!InSim()) return Sys(SYS_clock_gettime, c, (long)ts) ? -1 : 0;
  Tick();
  Point();
  int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? sim::WallNs() : (int64_t)sim::NowNs();
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
// absl::Now reads the cycle counter, so it is replaced as a whole.
int64_t __wrap__ZN4absl7debian319GetCurrentTimeNanosEv() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
struct AbslTime { int64_t hi; uint32_t lo; };
AbslTime __wrap__ZN4absl7debian33NowEv() {
  int64_t n = __wrap__ZN4absl7debian319GetCurrentTimeNanosEv();
  return {n / 1000000000, (uint32_t)(n % 1000000000) * 4};
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
static int SimSleep(uint64_t ns, struct timespec* rem) {
  uint64_t end = g_sim_ns + ns;
  uint32_t a;
  if (ns && Decide(sim::kEintr, &a, 0)) {
    uint64_t slept = ns > 1 ? Mix(a, 9) % ns : 0;
    SleepUntil(g_sim_ns + slept);
    uint64_t left = end > g_sim_ns ? end - g_sim_ns : 0;
    if (left) {
      if (rem) { rem->tv_sec = left / 1000000000; rem->tv_nsec = left % 1000000000; }
      errno = EINTR;
      return -1;
    }
    return 0;
  }
  SleepUntil(end);
  return 0;
}
int nanosleep(const struct timespec* rq, struct timespec* rem) {
  if (!InSim()) return Sys(SYS_nanosleep, (long)rq, (long)rem) ? -1 : 0;
  if (rq->tv_nsec < 0 || rq->tv_nsec > 999999999 || rq->tv_sec < 0) { errno = EINVAL; return -1; }
  // very long sleeps saturate
  uint64_t s = (uint64_t)rq->tv_sec;
  if (s > 4000000000ull) s = 4000000000ull;
  return SimSleep(s * 1000000000ull + rq->tv_nsec, rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* rq, struct timespec* rem) {
  if (!InSim()) return -(int)Sys(SYS_clock_nanosleep, c, flags, (long)rq, (long)rem);
  if (rq->tv_nsec < 0 || rq->tv_nsec > 999999999) return EINVAL;
  int64_t t = rq->tv_sec * 1000000000ll + rq->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    int64_t now = c == CLOCK_REALTIME ? sim::WallNs() : (int64_t)sim::NowNs();
    t = t > now ? t - now : 0;
    rem = nullptr;
  }
  int e = errno;
  int r = SimSleep(t, rem);
  if (r) { r = errno; errno = e; }
  return r;
}
int usleep(useconds_t us) {
  struct timespec ts{us / 1000000, (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec ts{s, 0}, rem{0, 0};
  return nanosleep(&ts, &rem) ? (unsigned)rem.tv_sec : 0;
}

// ---- identity and entropy -------------------------------------------------------------------------
int getentropy(void* p, size_t n) {
  uint8_t* b = (uint8_t*)p;
  for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)g_clk.Next();
  return 0;
}
ssize_t getrandom(void* p, size_t n, unsigned) { getentropy(p, n); return n; }
pid_t gettid(void) { return InSim() ? 1000 + t_self->id : (pid_t)Sys(SYS_gettid); }
pid_t getpid(void) { return InSim() ? 1000 : (pid_t)Sys(SYS_getpid); }
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (InSim()) {
    if (n == SYS_gettid) return gettid();
    if (n == SYS_getrandom) return getrandom((void*)a[0], a[1], 0);
    int op = (int)a[1] & 127;
    if (n == SYS_futex && (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)) {
      // Others run before the waiter does again; it then sees a wake-up nobody asked for, which a futex may always give.
      Point();
      if (*(volatile int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
      Thr* r[kMaxThr];
      if (g_multi && Runnable(r, t_self)) {
        SwitchTo(t_self, PickNext(t_self, false));
        return 0;
      }
      static int s_alone = 0;
      if (!a[3] && ++s_alone > 100000) EndRun(3, "deadlock: no thread can run; a futex is waited for");
      g_sim_ns += 1000000;  // alone: time passes
      CheckTimers();
      errno = a[3] ? ETIMEDOUT : EINTR;
      return -1;
    }
    if (n == SYS_futex && (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)) return 0;
  }
  long r = Sys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
}  // extern "C"
