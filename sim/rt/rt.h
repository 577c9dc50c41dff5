// Internal interface of the simulation runtime.
#ifndef VERIF_RT_H_
#define VERIF_RT_H_
#include <stddef.h>
#include <stdint.h>
#include "sim.h"

namespace rt {

// ---- raw system calls (never interposed) --------------------------------------
long Sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);

// ---- deterministic generator -------------------------------------------------------
struct Rng {
  uint64_t s;
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
};
inline uint64_t Mix(uint64_t a, uint64_t b) {
  Rng r{a ^ (b * 0xD6E8FEB86659FD93ull + 0x632BE59BD9B4E019ull)};
  r.Next();
  return r.Next();
}

// ---- one run -----------------------------------------------------------------------
enum DecKind : uint8_t { kPreempt = 1, kPick = 2, kFault = 3 };
struct Decision {
  uint8_t kind;
  uint8_t sub;     // fault kind
  uint16_t tid;
  uint32_t val;    // next thread / fault argument (low bits)
  uint64_t key;    // access count / pick count / fault opportunity
};
constexpr int kMaxDec = 1 << 17;
constexpr int kHotBits = 16;

struct Config {        // decided from the schedule seed, or read from a replay file
  int threads;
  int mode;            // bit0: random preemption, bit1: directed at conflicting accesses
  uint32_t mean;       // mean distance of random preemptions
  uint32_t hot_den;    // 1/den: probability of preempting at a conflicting access
  int victim;          // stalled thread or -1
  uint64_t junk;       // heap garbage
  uint64_t fault_mask; // kinds this run may inject
  uint32_t fault_den;  // 1/den per opportunity
  uint32_t fault_max;
  uint32_t clock_skew;
};
struct Spec {
  int scenario;
  uint64_t input_seed, sched_seed;
  int reference;       // sequential, fault-free
  int replay;          // take cfg + decisions from below
  int profile;         // record conflicting accesses into hot table
  int use_hot;         // preempt at known conflicting accesses: 1 any of them, 2 a few chosen by the seed
  uint64_t step_limit;
  Config cfg;
  int ndec;
};
struct CounterSlot { char name[40]; uint64_t n; };
struct Result {
  int status;          // 0 ran to the end, 1 Fail, 2 signal, 3 deadlock, 4 step limit, 5 memory error
  int sig;
  uint64_t outcome, trace, steps, switches, sim_ns, conflicts, fs_ops;
  uint64_t faults[sim::kNumFaults];
  uint32_t maxthreads;
  Config cfg;
  int ndec, dec_overflow;
  int ncounters;
  CounterSlot counters[32];
  char msg[2048];
  char desc[512];
};
struct Shared {        // MAP_SHARED between a worker and the run it forked
  Spec spec;
  Result res;
  Decision in[kMaxDec];
  Decision out[kMaxDec];
  uint64_t hot[1 << kHotBits];      // code addresses of conflicting accesses known before the run
  uint32_t nhot;
  uint64_t hot_out[1 << kHotBits];  // and after it
  uint32_t nhot_out;
};
extern Shared* g_sh;
extern bool g_on;      // inside a run
[[noreturn]] void EndRun(int status, const char* msg);
[[noreturn]] void ChildMain(Shared* sh);   // executes sh->spec in this process
bool Decide(sim::Fault f, uint32_t* arg, uint32_t argmax);  // fault decision
void AdvanceTime(uint64_t ns);
void SyscallPoint();   // preemption point + crash point
void TraceMix(uint64_t v);

// scheduler services for other parts of the runtime
bool InSim();
void Block(const void* obj);                   // until Wake(obj)
void Wake(const void* obj);
void SleepUntil(uint64_t ns);
void VfsReset();
void VfsCrashThread(int tid);
int CurTid();

// heap
void HeapEnterRun(uint64_t junk);
extern uintptr_t kRunBase;
inline constexpr uintptr_t kArenaBase = 0x100000000000ull;
inline constexpr uintptr_t kArenaSize = 1ull << 35;
inline constexpr uintptr_t kShadowBase = 0x200000000000ull;
[[noreturn]] void MemError(const void* p, unsigned size, bool write, const void* pc);
}  // namespace rt
#endif
