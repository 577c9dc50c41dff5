// Search over inputs, schedules and faults; minimisation and replay of violations.
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <set>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include "rt.h"

using namespace rt;
namespace {
double Wall() {
  timespec t;
  Sys(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
struct ScStat { uint64_t inputs, runs, switches, faulted; };
constexpr int kMaxSc = 64, kMaxTraces = 1 << 20;
struct Stats {  // one per worker, shared with the parent
  uint64_t inputs, runs, ref_runs, steps, switches, conflicts, sim_ns, fs_ops, nontrivial, reruns, nondet, unreproducible, known;
  uint64_t faults[sim::kNumFaults];
  uint64_t thr_hist[64];
  uint64_t status[10];
  ScStat sc[kMaxSc];
  int ncounters;
  CounterSlot counters[128];
  uint32_t ntraces;
  uint32_t knownhit[64];
  char samples[12][600];
  int nsamples;
  int violation;
  char vmsg[2300], vscenario[64], vreplay[256];
  uint64_t traces[kMaxTraces];
};
struct Glob { int stop; };
Glob* g_glob;
std::vector<const sim::Scenario*> g_sc;
std::vector<int> g_sc_index;     // index in the registration list
struct Known { std::string scenario, match; };
std::vector<Known> g_known;
std::string g_replay_dir = ".", g_prop, g_self;
uint64_t g_seed = 1;

const char* StatusName(int s) {
  static const char* n[] = {"ok", "property check failed", "crash", "deadlock", "no progress", "memory error", "hang"};
  return s >= 0 && s < 7 ? n[s] : "internal";
}

// Runs sh->spec in a fresh process.
void RunOnce(Shared* sh) {
  fflush(stdout);
  sh->res.status = 99;
  sh->res.msg[0] = 0;
  pid_t p = (pid_t)Sys(SYS_fork);
  if (p == 0) {
    struct rlimit rl{40, 41};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc{0, 0};
    setrlimit(RLIMIT_CORE, &rc);
    int null = open("/dev/null", O_RDWR);
    dup2(null, 0);
    if (!getenv("SIM_STDERR")) { dup2(null, 1); dup2(null, 2); }
    ChildMain(sh);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) {
    sh->res.status = 6;
    snprintf(sh->res.msg, sizeof sh->res.msg, "hang: the run used 40 s of processor time without finishing");
  } else if (sh->res.status == 99) {
    if (WIFSIGNALED(st)) {
      sh->res.status = 2;
      snprintf(sh->res.msg, sizeof sh->res.msg, "crash: killed by signal %d", WTERMSIG(st));
    } else {
      sh->res.status = 2;
      snprintf(sh->res.msg, sizeof sh->res.msg, "crash: the process exited in the middle of the run");
    }
  }
}
void Reference(Shared* sh, int sc, uint64_t input) {
  sh->spec = Spec{};
  sh->spec.scenario = g_sc_index[sc];
  sh->spec.input_seed = input;
  sh->spec.reference = 1;
  sh->spec.step_limit = 3000000000ull;
  RunOnce(sh);
}
struct RefInfo { int status; uint64_t outcome, steps; };

bool Judge(const sim::Scenario* s, const RefInfo& ref, Result& r) {  // true = violation
  if (r.status != 0) return true;
  if ((s->kind & sim::kSameOutcome) && r.outcome != ref.outcome) {
    r.status = 1;
    snprintf(r.msg, sizeof r.msg, "outcome differs from the sequential, fault-free run of the same input (threads=%d)", r.cfg.threads);
    return true;
  }
  return false;
}
std::string Class(const Result& r) {  // what must be preserved while minimising
  std::string m = r.msg;
  size_t k = m.find_first_of("0123456789(");
  return std::to_string(r.status) + m.substr(0, std::min<size_t>(k == std::string::npos ? 60 : k, 60));
}
bool WriteReplay(const char* path, const sim::Scenario* s, Shared* sh, const Spec& sp, const RefInfo& ref,
                 const std::vector<Decision>& d, const Result& r, uint64_t orig_dec) {
  FILE* f = fopen(path, "w");
  if (!f) return false;
  fprintf(f, "# simulation replay: run with  --replay <this file>\n");
  fprintf(f, "property %s\nscenario %s\ninput_seed %llu\nsched_seed %llu\nmode %s\nstep_limit %llu\n", s->prop, s->name,
          (unsigned long long)sp.input_seed, (unsigned long long)sp.sched_seed,
          sp.reference ? "reference" : sp.replay ? "decisions" : "seeded", (unsigned long long)sp.step_limit);
  const Config& c = sp.replay ? sp.cfg : r.cfg;
  fprintf(f, "config threads=%d mode=%d mean=%u hot_den=%u victim=%d junk=%llu fault_mask=%llu fault_den=%u fault_max=%u clock_skew=%u\n",
          c.threads, c.mode, c.mean, c.hot_den, c.victim, (unsigned long long)c.junk, (unsigned long long)c.fault_mask, c.fault_den, c.fault_max, c.clock_skew);
  fprintf(f, "reference_outcome %llu\nuse_hot %d profile %d\n", (unsigned long long)ref.outcome, sp.use_hot, sp.profile);
  if (!sp.reference && !sp.replay && sp.use_hot)
    for (uint32_t i = 0; i < sh->nhot; ++i) fprintf(f, "hot %llu\n", (unsigned long long)sh->hot[i]);
  fprintf(f, "# %zu decisions after minimisation (%llu recorded)\n", d.size(), (unsigned long long)orig_dec);
  for (const Decision& x : d) {
    const char* what = x.kind == kPreempt ? "preempt" : x.kind == kPick ? "pick" : "fault";
    fprintf(f, "%s sub=%u tid=%u key=%llu val=%u", what, x.sub, x.tid, (unsigned long long)x.key, x.val);
    if (x.kind == kFault) fprintf(f, "   # inject %s at its opportunity %llu", sim::kFaultNames[x.sub], (unsigned long long)x.key);
    else if (x.kind == kPreempt) fprintf(f, "   # at access %llu of thread %u switch to thread %u", (unsigned long long)x.key, x.tid, x.val);
    fprintf(f, "\n");
  }
  fprintf(f, "input %s\nexpect_status %d\nexpect_outcome %llu\nexpect_trace %llu\nmessage %s\n", r.desc, r.status,
          (unsigned long long)r.outcome, (unsigned long long)r.trace, r.msg);
  fclose(f);
  return true;
}

// The run described by sh->spec just failed: reproduce, minimise, record.
bool Report(Shared* sh, Stats* st, int sci, const RefInfo& ref, int worker) {
  const sim::Scenario* s = g_sc[sci];
  Spec sp = sh->spec;
  Result r = sh->res;
  std::string cls = Class(r);
  for (size_t i = 0; i < g_known.size(); ++i)
    if (g_known[i].scenario == s->name && strstr(r.msg, g_known[i].match.c_str())) {
      st->known++;
      if (i < 64) st->knownhit[i]++;
      return false;
    }
  auto rerun = [&]() {
    RunOnce(sh);
    return Judge(s, ref, sh->res);
  };
  // reproduce from the same seeds
  sh->spec = sp;
  bool again = rerun() && Class(sh->res) == cls;
  if (!again) {
    sh->spec = sp;
    again = rerun() && Class(sh->res) == cls;
  }
  if (!again) { st->unreproducible++; return false; }
  r = sh->res;
  std::vector<Decision> dec;
  Spec fin = sp;
  if (!sp.reference && !r.dec_overflow) {
    dec.assign(sh->out, sh->out + r.ndec);
    auto attempt = [&](const std::vector<Decision>& d, const Config& c) {
      Spec q = sp;
      q.replay = 1;
      q.profile = 0;
      q.cfg = c;
      q.ndec = (int)d.size();
      std::copy(d.begin(), d.end(), sh->in);
      sh->spec = q;
      return rerun() && Class(sh->res) == cls;
    };
    Config c = r.cfg;
    double t0 = Wall();
    if (attempt(dec, c)) {
      fin = sh->spec;
      auto spent = [&] { return Wall() - t0 > 15; };
      // fewer kinds first, then delta debugging
      for (int kind : {kPreempt, kPick, kFault}) {
        std::vector<Decision> d;
        for (auto& x : dec) if (x.kind != kind) d.push_back(x);
        if (d.size() < dec.size() && !spent() && attempt(d, c)) dec = d;
      }
      for (int t : {2, 3, 4}) {
        if (c.threads <= t) break;
        Config c2 = c;
        c2.threads = t;
        if (attempt(dec, c2)) { c = c2; break; }
      }
      size_t n = 2;
      while (dec.size() >= 2 && !spent()) {
        size_t chunk = (dec.size() + n - 1) / n;
        bool cut = false;
        for (size_t i = 0; i < dec.size() && !spent(); i += chunk) {
          std::vector<Decision> d(dec.begin(), dec.begin() + i);
          d.insert(d.end(), dec.begin() + std::min(dec.size(), i + chunk), dec.end());
          if (attempt(d, c)) { dec = d; n = std::max<size_t>(n - 1, 2); cut = true; break; }
        }
        if (!cut) {
          if (n >= dec.size()) break;
          n = std::min(dec.size(), n * 2);
        }
      }
      if (dec.size() == 1 && !spent()) { std::vector<Decision> d; if (attempt(d, c)) dec = d; }
      attempt(dec, c);
      fin = sh->spec;
      r = sh->res;
    } else {
      dec.clear();  // fall back to the seeded replay
      sh->spec = sp;
      rerun();
      r = sh->res;
    }
  }
  char path[256];
  snprintf(path, sizeof path, "%s/%s-%s-%d.replay", g_replay_dir.c_str(), s->prop, s->name, worker);
  if (!WriteReplay(path, s, sh, fin, ref, dec, r, sp.reference ? 0 : sh->res.ndec)) snprintf(path, sizeof path, "unwritable");
  snprintf(st->vmsg, sizeof st->vmsg, "%s: %s", StatusName(r.status), r.msg);
  snprintf(st->vscenario, sizeof st->vscenario, "%s", s->name);
  snprintf(st->vreplay, sizeof st->vreplay, "%s", path);
  st->violation = 1;
  return true;
}

void Merge(Stats* st, int sci, const Result& r, bool ref) {
  st->runs++;
  if (ref) st->ref_runs++;
  st->steps += r.steps;
  st->switches += r.switches;
  st->conflicts += r.conflicts;
  st->sim_ns += r.sim_ns > 1000000000000ull ? r.sim_ns - 1000000000000ull : 0;
  st->fs_ops += r.fs_ops;
  uint64_t f = 0;
  for (int i = 0; i < sim::kNumFaults; ++i) { st->faults[i] += r.faults[i]; f += r.faults[i]; }
  if (r.maxthreads < 64) st->thr_hist[r.maxthreads]++;
  if (r.status < 10) st->status[r.status]++;
  ScStat& q = st->sc[sci];
  q.runs++;
  q.switches += r.switches;
  q.faulted += f > 0;
  if (r.switches || f) st->nontrivial++;
  for (int i = 0; i < r.ncounters; ++i) {
    int k = 0;
    for (; k < st->ncounters; ++k)
      if (!strcmp(st->counters[k].name, r.counters[i].name)) break;
    if (k == st->ncounters) {
      if (k >= 128) continue;
      st->counters[k] = r.counters[i];
      st->ncounters++;
    } else {
      st->counters[k].n += r.counters[i].n;
    }
  }
}

void Worker(int w, int jobs, Stats* st, double deadline, uint64_t max_inputs) {
  cpu_set_t cs;
  CPU_ZERO(&cs);
  CPU_SET(w % sysconf(_SC_NPROCESSORS_ONLN), &cs);
  sched_setaffinity(0, sizeof cs, &cs);
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < sim::g_num_warmups; ++i) sim::g_warmups[i]();
  std::unordered_set<uint64_t> traces;
  std::map<int, std::set<uint64_t>> hot;
  // weighted round robin over the scenarios
  std::vector<int> wheel;
  int maxw = 0;
  for (auto* s : g_sc) maxw = std::max(maxw, s->weight);
  for (int r = 0; r < maxw; ++r)
    for (size_t i = 0; i < g_sc.size(); ++i)
      if (r < g_sc[i]->weight) wheel.push_back((int)i);
  for (uint64_t i = w; i < max_inputs; i += jobs) {
    if (g_glob->stop || Wall() > deadline) break;
    // every worker visits every scenario
    int sci = wheel[((i / jobs) + (i % jobs) * 7) % wheel.size()];
    const sim::Scenario* s = g_sc[sci];
    uint64_t input = Mix(Mix(g_seed, 0x1111), i);
    Reference(sh, sci, input);
    Result& r = sh->res;
    RefInfo ref{r.status, r.outcome, r.steps};
    Merge(st, sci, r, true);
    st->inputs++;
    st->sc[sci].inputs++;
    if (st->sc[sci].inputs == 1 && st->nsamples < 12)
      snprintf(st->samples[st->nsamples++], 600, "%s input_seed=%llu: %s", s->name, (unsigned long long)input, r.desc);
    if (r.status) {
      if (Report(sh, st, sci, ref, w)) break;
      continue;
    }
    bool dead = false;
    bool par = s->kind & (sim::kOmp | sim::kMt);
    for (int k = 1; k < s->runs_per_input; ++k) {
      if (g_glob->stop || Wall() > deadline + 5) break;
      sh->spec = Spec{};
      sh->spec.scenario = g_sc_index[sci];
      sh->spec.input_seed = input;
      sh->spec.sched_seed = Mix(Mix(g_seed, 0x2222), i * 1000 + k);
      sh->spec.step_limit = 200000000ull + ref.steps * 40;
      // Conflicting accesses are remembered for the scenario, as code addresses.
      std::set<uint64_t>& hs = hot[sci];
      if (s->runs_per_input > 2) sh->spec.profile = k == 1 && par;
      else sh->spec.profile = par && (hs.empty() || st->sc[sci].inputs % 3 == 1);
      sh->spec.use_hot = par && !sh->spec.profile && hs.size() ? 1 + (int)(Mix(input, k) & 1) : 0;
      sh->nhot = sh->nhot_out = 0;
      if (sh->spec.use_hot)
        for (uint64_t h : hs) sh->hot[sh->nhot++] = h;
      RunOnce(sh);
      for (uint32_t h = 0; h < sh->nhot_out && hs.size() < (1u << kHotBits) / 2; ++h) hs.insert(sh->hot_out[h]);
      Merge(st, sci, sh->res, false);
      traces.insert(Mix(sh->res.trace, input));
      if (Judge(s, ref, sh->res)) {
        if (Report(sh, st, sci, ref, w)) { dead = true; break; }
        continue;
      }
      if ((st->runs & 127) == 5) {  // the same seed must give the same execution
        Result a = sh->res;
        RunOnce(sh);
        st->reruns++;
        if (a.trace != sh->res.trace || a.outcome != sh->res.outcome || a.status != sh->res.status || a.steps != sh->res.steps) {
          st->nondet++;
          if (getenv("SIM_DEBUG"))
            fprintf(stderr, "nondeterministic: %s input=%llu sched=%llu steps %llu/%llu trace %llx/%llx outcome %llx/%llx status %d/%d %s\n", s->name,
                    (unsigned long long)input, (unsigned long long)sh->spec.sched_seed, (unsigned long long)a.steps, (unsigned long long)sh->res.steps,
                    (unsigned long long)a.trace, (unsigned long long)sh->res.trace, (unsigned long long)a.outcome, (unsigned long long)sh->res.outcome, a.status, sh->res.status, sh->res.msg);
        }
      }
    }
    if (dead) break;
  }
  if (st->violation) g_glob->stop = 1;
  for (uint64_t t : traces) {
    if (st->ntraces >= kMaxTraces) break;
    st->traces[st->ntraces++] = t;
  }
  _exit(0);
}

std::string Esc(const char* s) {
  std::string o;
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

int Replay(const char* path) {
  FILE* f = fopen(path, "r");
  if (!f) { fprintf(stderr, "cannot open %s\n", path); return 2; }
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < sim::g_num_warmups; ++i) sim::g_warmups[i]();
  char line[4096], name[64] = "", mode[32] = "";
  Spec sp{};
  unsigned long long u, ro = 0, eo = 0, et = 0;
  int es = 0, use_hot = 0, profile = 0;
  std::vector<Decision> dec;
  while (fgets(line, sizeof line, f)) {
    if (sscanf(line, "scenario %63s", name) == 1) continue;
    if (sscanf(line, "mode %31s", mode) == 1) continue;
    if (sscanf(line, "input_seed %llu", &u) == 1) { sp.input_seed = u; continue; }
    if (sscanf(line, "sched_seed %llu", &u) == 1) { sp.sched_seed = u; continue; }
    if (sscanf(line, "step_limit %llu", &u) == 1) { sp.step_limit = u; continue; }
    if (sscanf(line, "reference_outcome %llu", &ro) == 1) continue;
    if (sscanf(line, "use_hot %d profile %d", &use_hot, &profile) == 2) continue;
    if (sscanf(line, "hot %llu", &u) == 1) { if (sh->nhot < (1u << kHotBits)) sh->hot[sh->nhot++] = u; continue; }
    if (sscanf(line, "expect_status %d", &es) == 1) continue;
    if (sscanf(line, "expect_outcome %llu", &eo) == 1) continue;
    if (sscanf(line, "expect_trace %llu", &et) == 1) continue;
    unsigned long long j, fm;
    Config& c = sp.cfg;
    if (sscanf(line, "config threads=%d mode=%d mean=%u hot_den=%u victim=%d junk=%llu fault_mask=%llu fault_den=%u fault_max=%u clock_skew=%u",
               &c.threads, &c.mode, &c.mean, &c.hot_den, &c.victim, &j, &fm, &c.fault_den, &c.fault_max, &c.clock_skew) == 10) {
      c.junk = j;
      c.fault_mask = fm;
      continue;
    }
    char what[16];
    unsigned sub, tid, val;
    if (sscanf(line, "%15s sub=%u tid=%u key=%llu val=%u", what, &sub, &tid, &u, &val) == 5) {
      Decision d{};
      d.kind = !strcmp(what, "preempt") ? kPreempt : !strcmp(what, "pick") ? kPick : kFault;
      d.sub = sub; d.tid = tid; d.key = u; d.val = val;
      dec.push_back(d);
    }
  }
  fclose(f);
  int sci = -1;
  for (size_t i = 0; i < g_sc.size(); ++i) if (!strcmp(g_sc[i]->name, name)) sci = (int)i;
  if (sci < 0) { fprintf(stderr, "no scenario %s in this binary\n", name); return 2; }
  RefInfo ref{0, ro, 0};
  Reference(sh, sci, sp.input_seed);
  ref.outcome = sh->res.outcome;
  bool bad;
  if (!strcmp(mode, "reference")) {
    bad = sh->res.status != 0;
  } else {
    sp.scenario = g_sc_index[sci];
    if (!strcmp(mode, "decisions")) {
      sp.replay = 1;
      sp.ndec = (int)dec.size();
      std::copy(dec.begin(), dec.end(), sh->in);
      sh->spec = sp;
    } else {
      Spec q = sp;
      q.cfg = Config{};
      q.use_hot = use_hot;
      q.profile = profile;
      sh->spec = q;
    }
    RunOnce(sh);
    bad = Judge(g_sc[sci], ref, sh->res);
  }
  Result& r = sh->res;
  printf("replayed %s: %s: %s\n", name, StatusName(r.status), r.msg);
  printf("input: %s\n", r.desc);
  printf("outcome=%llu trace=%llu %s\n", (unsigned long long)r.outcome, (unsigned long long)r.trace,
         (r.status == es && r.outcome == eo && r.trace == et) ? "(exactly as recorded)" : "(differs from the recording)");
  return bad ? 1 : 0;
}
}  // namespace

extern "C" char __executable_start, etext;
namespace rt { extern uint8_t* g_cov; }
int main(int argc, char** argv) {
  if (!getenv("SIM_NO_ASLR_TRIED")) {
    setenv("SIM_NO_ASLR_TRIED", "1", 1);
    setenv("GLOG_minloglevel", "4", 1);
    setenv("GLOG_logtostderr", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (const char* c = getenv("SIM_COV")) {
    size_t n = (size_t)(&etext - &__executable_start);
    int fd = (int)syscall(SYS_open, c, O_RDWR | O_CREAT, 0644);
    if (syscall(SYS_ftruncate, fd, n)) return 2;
    rt::g_cov = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  std::string out, replay, only;
  double secs = 25;
  uint64_t max_inputs = ~0ull;
  int jobs = 8;
  long nproc = sysconf(_SC_NPROCESSORS_ONLN);
  if (nproc > 0 && nproc < jobs) jobs = (int)nproc;
  uint64_t debug_input = 0, debug_sched = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") g_prop = next();
    else if (a == "--seed") g_seed = strtoull(next(), nullptr, 0);
    else if (a == "--seconds") secs = atof(next());
    else if (a == "--inputs") max_inputs = strtoull(next(), nullptr, 0);
    else if (a == "--jobs") jobs = atoi(next());
    else if (a == "--out") out = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replay-dir") g_replay_dir = next();
    else if (a == "--only") only = next();
    else if (a == "--known") { std::string k = next(); size_t t = k.find('\t'); if (t != std::string::npos) g_known.push_back({k.substr(0, t), k.substr(t + 1)}); }
    else if (a == "--ref") debug_input = strtoull(next(), nullptr, 0);
    else if (a == "--sched") debug_sched = strtoull(next(), nullptr, 0);
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  int idx = 0;
  for (sim::Scenario* s = sim::g_scenarios; s; s = s->next, ++idx)
    if ((g_prop.empty() || g_prop == s->prop) && (only.empty() || only == s->name)) {
      g_sc.push_back(s);
      g_sc_index.push_back(idx);
    }
  if (g_sc.empty()) { fprintf(stderr, "no scenarios\n"); return 2; }
  if (!replay.empty()) return Replay(replay.c_str());
  if (debug_input) {
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < sim::g_num_warmups; ++i) sim::g_warmups[i]();
    for (size_t i = 0; i < g_sc.size(); ++i) {
      Reference(sh, (int)i, debug_input);
      printf("%s ref status=%d %s [%s] steps=%llu\n", g_sc[i]->name, sh->res.status, sh->res.msg, sh->res.desc, (unsigned long long)sh->res.steps);
      uint64_t o = sh->res.outcome;
      if (debug_sched) {
        sh->spec.reference = 0;
        sh->spec.sched_seed = debug_sched;
        RunOnce(sh);
        printf("  sched status=%d %s steps=%llu switches=%llu threads=%d same=%d\n", sh->res.status, sh->res.msg, (unsigned long long)sh->res.steps, (unsigned long long)sh->res.switches, sh->res.cfg.threads, o == sh->res.outcome);
      }
    }
    return 0;
  }
  double t0 = Wall();
  g_glob = (Glob*)mmap(nullptr, sizeof(Glob), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<Stats*> st;
  std::vector<pid_t> pids;
  for (int w = 0; w < jobs; ++w) {
    Stats* s = (Stats*)mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    st.push_back(s);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) Worker(w, jobs, s, t0 + secs, max_inputs);
    pids.push_back(p);
  }
  bool broken = false;
  for (pid_t p : pids) {
    int s = 0;
    waitpid(p, &s, 0);
    if (!WIFEXITED(s) || WEXITSTATUS(s)) broken = true;
  }
  double wall = Wall() - t0;
  Stats* T = (Stats*)mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  std::unordered_set<uint64_t> traces;
  Stats* viol = nullptr;
  for (Stats* s : st) {
    T->inputs += s->inputs; T->runs += s->runs; T->ref_runs += s->ref_runs; T->steps += s->steps; T->switches += s->switches;
    T->conflicts += s->conflicts; T->sim_ns += s->sim_ns; T->fs_ops += s->fs_ops; T->nontrivial += s->nontrivial; T->reruns += s->reruns;
    T->nondet += s->nondet; T->unreproducible += s->unreproducible; T->known += s->known;
    for (int i = 0; i < sim::kNumFaults; ++i) T->faults[i] += s->faults[i];
    for (int i = 0; i < 64; ++i) { T->thr_hist[i] += s->thr_hist[i]; T->knownhit[i] += s->knownhit[i]; }
    for (int i = 0; i < 10; ++i) T->status[i] += s->status[i];
    for (int i = 0; i < kMaxSc; ++i) { T->sc[i].inputs += s->sc[i].inputs; T->sc[i].runs += s->sc[i].runs; T->sc[i].switches += s->sc[i].switches; T->sc[i].faulted += s->sc[i].faulted; }
    for (uint32_t i = 0; i < s->ntraces; ++i) traces.insert(s->traces[i]);
    for (int i = 0; i < s->ncounters; ++i) {
      int k = 0;
      for (; k < T->ncounters; ++k) if (!strcmp(T->counters[k].name, s->counters[i].name)) break;
      if (k == T->ncounters) { if (k < 128) { T->counters[k] = s->counters[i]; T->ncounters++; } }
      else T->counters[k].n += s->counters[i].n;
    }
    if (s->violation && !viol) viol = s;
  }
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write %s\n", out.c_str()); return 2; }
  fprintf(f, "{\"property\":\"%s\",\"seed\":%llu,\"wall_s\":%.2f,\"runs\":%llu,\"inputs\":%llu,\"reference_runs\":%llu,\"nontrivial_runs\":%llu,\"distinct_traces\":%zu,"
             "\"steps\":%llu,\"switches\":%llu,\"conflicting_accesses\":%llu,\"sim_seconds\":%.6f,\"fs_ops\":%llu,\"determinism_reruns\":%llu,\"determinism_mismatches\":%llu,\"unreproducible\":%llu,\"known\":%llu,\"jobs\":%d,\"worker_failure\":%s,",
          g_prop.c_str(), (unsigned long long)g_seed, wall, (unsigned long long)T->runs, (unsigned long long)T->inputs, (unsigned long long)T->ref_runs,
          (unsigned long long)T->nontrivial, traces.size(), (unsigned long long)T->steps, (unsigned long long)T->switches, (unsigned long long)T->conflicts, T->sim_ns * 1e-9,
          (unsigned long long)T->fs_ops, (unsigned long long)T->reruns, (unsigned long long)T->nondet, (unsigned long long)T->unreproducible, (unsigned long long)T->known, jobs, broken ? "true" : "false");
  fprintf(f, "\"faults\":{");
  bool first = true;
  for (int i = 0; i < sim::kNumFaults; ++i)
    if (T->faults[i]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", sim::kFaultNames[i], (unsigned long long)T->faults[i]); first = false; }
  fprintf(f, "},\"threads\":{");
  first = true;
  for (int i = 0; i < 64; ++i)
    if (T->thr_hist[i]) { fprintf(f, "%s\"%d\":%llu", first ? "" : ",", i, (unsigned long long)T->thr_hist[i]); first = false; }
  fprintf(f, "},\"counters\":{");
  for (int i = 0; i < T->ncounters; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", Esc(T->counters[i].name).c_str(), (unsigned long long)T->counters[i].n);
  fprintf(f, "},\"scenarios\":{");
  for (size_t i = 0; i < g_sc.size(); ++i)
    fprintf(f, "%s\"%s\":{\"inputs\":%llu,\"runs\":%llu,\"switches\":%llu,\"runs_with_faults\":%llu}", i ? "," : "", g_sc[i]->name, (unsigned long long)T->sc[i].inputs,
            (unsigned long long)T->sc[i].runs, (unsigned long long)T->sc[i].switches, (unsigned long long)T->sc[i].faulted);
  fprintf(f, "},\"known_hits\":[");
  for (size_t i = 0; i < g_known.size() && i < 64; ++i) fprintf(f, "%s%u", i ? "," : "", T->knownhit[i]);
  fprintf(f, "],\"samples\":[");
  first = true;
  int ns = 0;
  for (Stats* s : st)
    for (int i = 0; i < s->nsamples && ns < 12; ++i, ++ns) { fprintf(f, "%s\"%s\"", first ? "" : ",", Esc(s->samples[i]).c_str()); first = false; }
  fprintf(f, "],\"violation\":");
  if (viol) fprintf(f, "{\"scenario\":\"%s\",\"message\":\"%s\",\"replay\":\"%s\"}", viol->vscenario, Esc(viol->vmsg).c_str(), Esc(viol->vreplay).c_str());
  else fprintf(f, "null");
  fprintf(f, "}\n");
  if (f != stdout) fclose(f);
  return viol ? 1 : broken ? 2 : 0;
}
