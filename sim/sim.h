// Interface between scenarios (harnesses) and the simulation runtime.
#ifndef VERIF_SIM_H_
#define VERIF_SIM_H_
#include <stddef.h>
#include <stdint.h>
#include <functional>
#include <string>
#include <type_traits>
#include <vector>

namespace sim {

// ---- fault kinds -----------------------------------------------------------
enum Fault : uint8_t {
  kTeamShort,    // OpenMP grants fewer threads than requested
  kStall,        // a worker is stalled until nobody else can run
  kEintr,        // interrupted system call
  kShort,        // short read / write / copy
  kEio,          // I/O error
  kEnospc,       // disk full
  kEmfile,       // descriptor table full
  kEacces,       // permission denied
  kExdev,        // rename across devices
  kEinval,       // unsupported call (sendfile, fallocate)
  kMapFail,      // mmap refused
  kThreadFail,   // thread creation refused
  kClockJump,    // wall clock jumps
  kCrash,        // process crashes at a system call
  kAllocFail,    // allocation refused
  kCorrupt,      // stored bytes damaged / cut short
  kDelay,        // call takes a long time
  kNumFaults
};
constexpr uint32_t Bit(Fault f) { return 1u << f; }
extern const char* const kFaultNames[kNumFaults];

// ---- randomness of the scenario's input -------------------------------------
uint64_t Rand();
// In its scope the calling thread draws from a stream of its own, so that what threads draw does not depend on their order.
struct Stream {
  explicit Stream(uint64_t seed);
  ~Stream();
  Stream(const Stream&) = delete;
  Stream& operator=(const Stream&) = delete;
};
inline uint64_t Below(uint64_t n) { return n ? Rand() % n : 0; }
inline uint64_t Range(uint64_t lo, uint64_t hi) { return lo + Below(hi - lo + 1); }
inline bool Chance(unsigned num, unsigned den) { return Below(den) < num; }
template <typename T, size_t N>
inline const T& Pick(const T (&a)[N]) { return a[Below(N)]; }

// ---- verdicts ----------------------------------------------------------------
[[noreturn]] void Fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void Outcome(const void* p, size_t n);  // must be equal under every schedule/fault
template <typename T>
inline void OutcomeVal(const T& v) { static_assert(std::is_trivially_copyable_v<T>); Outcome(&v, sizeof(v)); }
// Ends the run: |fn| must be refused by aborting (a failed CHECK).
[[noreturn]] void MustAbort(const char* what, std::function<void()> fn);
// Whether |fn| returns true; the run may also end here by an abort (a failed CHECK).
bool AcceptsOrAborts(const std::function<bool()>& fn);
void Describe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // input, for samples
void Count(const char* what, uint64_t n = 1);   // reported under coverage.counters
#define SIM_CHECK(cond, ...) do { if (!(cond)) ::sim::Fail("check failed: " #cond ": " __VA_ARGS__); } while (0)
#define SIM_REQUIRE(cond) SIM_CHECK(cond, "at %s:%d", __FILE__, __LINE__)

// ---- configuration of a run (decided by its seed) ------------------------------
int Threads();                    // OpenMP thread count of this run
void EnableFaults(uint32_t mask); // faults may be injected from now on
void DisableFaults();
uint32_t FaultsInjected();        // so far in this run
bool FaultAt(Fault f);            // a scenario's own fault point
uint64_t FaultArg(uint64_t n);    // seeded argument of the fault just injected
void NoteFault(Fault f);          // count a fault the scenario injected itself
bool Reference();                 // this is the sequential, fault-free reference run

// ---- process ------------------------------------------------------------------
// Runs |fn| on its own simulated thread; a kCrash fault ends it at a system call
// without unwinding. Returns true if it completed.
bool RunCrashable(std::function<void()> fn);
uint64_t NowNs();                 // simulated monotonic time
int64_t WallNs();                 // simulated wall clock
void Yield();                     // an explicit preemption point
int SelfId();
size_t HeapLiveBlocks();
size_t HeapLiveBytes();
bool HeapValid(const void* p, size_t n);  // entirely inside live allocations (or not heap)
uint64_t LiveThreads();           // simulated OS threads created and not finished

// ---- simulated file system -------------------------------------------------------
namespace fs {
enum Kind { kNone, kFile, kDir, kLink, kSpecial };
struct Stat { Kind kind; uint64_t size; uint32_t mode; uint64_t ino; };
void MkdirP(const std::string& path, unsigned mode = 0755);
void Put(const std::string& path, const std::string& data, unsigned mode = 0644);
void Symlink(const std::string& target, const std::string& path);
bool Get(const std::string& path, std::string* data);
Stat Lookup(const std::string& path);            // does not follow a final link
std::vector<std::string> Tree(const std::string& root);  // sorted, relative, dirs end in /
std::string Snapshot(const std::string& root);   // tree with contents and modes, canonical
size_t OpenFds();
size_t OpenDirs();
size_t Maps();
uint64_t Ops();
std::string BadOps();   // closes of unowned descriptors, unaligned munmap, ...
void SetCapacity(uint64_t bytes);                // disk size
void SetMount(const std::string& prefix, int dev);
}  // namespace fs

// ---- registration ------------------------------------------------------------------
enum Kind : uint32_t {
  kOmp = 1,        // explore thread counts and OpenMP schedules
  kIo = 2,         // explore faults
  kMt = 4,         // scenario creates threads itself
  kSameOutcome = 8 // outcome digest must equal the reference run's
};
struct Scenario {
  const char* prop;
  const char* name;
  uint32_t kind;
  int weight;              // relative number of inputs explored
  int runs_per_input;      // schedules/fault sequences per input
  void (*fn)();
  Scenario* next;
};
extern Scenario* g_scenarios;
struct Registrar { explicit Registrar(Scenario* s) { s->next = g_scenarios; g_scenarios = s; } };
// Run once in each worker process before any run, single-threaded.
extern void (*g_warmups[64])();
extern int g_num_warmups;
struct WarmReg { explicit WarmReg(void (*f)()) { g_warmups[g_num_warmups++] = f; } };

#define SIM_SCENARIO(prop, name, kind, weight, runs)                             \
  static void SimBody_##name();                                                  \
  static ::sim::Scenario sim_sc_##name{prop, #name, kind, weight, runs, SimBody_##name, nullptr}; \
  static ::sim::Registrar sim_reg_##name(&sim_sc_##name);                        \
  static void SimBody_##name()
#define SIM_WARMUP(name)                                                         \
  static void SimWarm_##name();                                                  \
  static ::sim::WarmReg sim_warm_##name(SimWarm_##name);                         \
  static void SimWarm_##name()

}  // namespace sim
#endif
