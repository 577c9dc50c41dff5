// C19 (sleeping and clocks), C20 (threads), C21 (allocator accounting).
#include <limits.h>
#include <pthread.h>
#include <time.h>
#include <atomic>
#include <chrono>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include "tachyon/base/threading/platform_thread.h"
#include "tachyon/base/time/time.h"
#include "tachyon/base/time/time_delta_flag.h"
#include "tachyon/base/time/time_interval.h"
#include "tachyon/base/time/time_stamp.h"
#include "tachyon/device/allocator.h"
#include "tachyon/device/allocator_registry.h"
#include "tachyon/device/tracking_allocator.h"
#include "util.h"

namespace base = tachyon::base;
namespace device = tachyon::device;
using base::TimeDelta;
using base::TimeTicks;
using i128 = __int128;

namespace {
void Launch(std::vector<std::thread>& ts, std::function<void()> f) { ts.emplace_back(std::move(f)); }
void JoinAll(std::vector<std::thread>& ts) { for (auto& t : ts) t.join(); }

constexpr uint32_t kTime = sim::Bit(sim::kEintr) | sim::Bit(sim::kClockJump) | sim::Bit(sim::kDelay) | sim::Bit(sim::kStall);

TimeDelta SleepFor() {
  switch (sim::Below(9)) {
    case 0: return TimeDelta();
    case 1: return base::Microseconds(sim::Range(1, 20));
    case 2: return base::Microseconds(sim::Range(999000, 1001000));
    case 3: return base::Seconds(sim::Range(1, 3));
    case 4: return base::Microseconds(-(int64_t)sim::Range(1, 3000000));
    case 5: return base::Days(sim::Range(1, 400));
    case 6: return base::Milliseconds(sim::Range(1, 5000));
    default: return base::Microseconds(sim::Range(1, 10000000));
  }
}
}  // namespace

SIM_SCENARIO("C19", sleep_at_least, sim::kMt | sim::kIo, 4, 14) {
  int nt = (int)sim::Range(1, 4);
  std::vector<std::vector<TimeDelta>> plan(nt);
  for (auto& p : plan) { p.resize(sim::Range(1, 4)); for (auto& d : p) d = SleepFor(); }
  sim::Describe("sleep threads=%d first=%lld us", nt, (long long)plan[0][0].InMicroseconds());
  sim::EnableFaults(kTime);
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; ++t)
    Launch(ts, [&, t] {
      for (TimeDelta d : plan[t]) {
        uint64_t at = sim::NowNs();
        TimeTicks a = TimeTicks::Now();
        base::PlatformThread::Sleep(d);
        TimeTicks b = TimeTicks::Now();
        int64_t us = d.InMicroseconds();
        uint64_t now = sim::NowNs();
        SIM_CHECK(now >= at, "time went back");
        if (us > 0) SIM_CHECK(now - at >= (uint64_t)us * 1000, "sleeping %lld us returned after %llu ns", (long long)us, (unsigned long long)(now - at));
        SIM_CHECK(b >= a && (us <= 0 || b - a >= d - base::Microseconds(1)), "ticks saw %lld us of a sleep of %lld us", (long long)(b - a).InMicroseconds(), (long long)us);
      }
    });
  JoinAll(ts);
}
SIM_SCENARIO("C19", sleep_forever, sim::kMt | sim::kIo, 1, 4) {
  sim::EnableFaults(kTime);
  uint64_t at = sim::NowNs();
  TimeDelta d = sim::Chance(1, 2) ? TimeDelta::Max() : sim::Chance(1, 2) ? TimeDelta::FiniteMax() : base::Days(40000);
  sim::Describe("sleep practically for ever: %lld us", (long long)d.InMicroseconds());
  base::PlatformThread::Sleep(d);
  SIM_CHECK(sim::NowNs() - at >= 3400000000ull * 1000000000ull, "a sleep of %lld us returned after %llu ns", (long long)d.InMicroseconds(), (unsigned long long)(sim::NowNs() - at));
}
SIM_SCENARIO("C19", sleep_lets_others_run, sim::kMt | sim::kIo, 2, 10) {
  std::atomic<bool> stop{false};
  int steps = (int)sim::Range(5, 30);
  int64_t us = (int64_t)sim::Range(2000000, 9000000);
  sim::Describe("sleeper of %lld us and a worker of %d steps", (long long)us, steps);
  sim::EnableFaults(kTime & ~(sim::Bit(sim::kStall) | sim::Bit(sim::kDelay)));
  bool done_before = false;
  std::atomic<int> did{0};
  std::vector<std::thread> ts;
  Launch(ts, [&] { base::PlatformThread::Sleep(base::Microseconds(us)); done_before = did.load() == steps; stop = true; });
  Launch(ts, [&] { for (int i = 0; i < steps; ++i) { base::PlatformThread::Sleep(base::Microseconds(10)); base::PlatformThread::YieldCurrentThread(); ++did; } });
  JoinAll(ts);
  SIM_CHECK(done_before, "the other thread did not get to run while one slept");
}
SIM_SCENARIO("C19", clocks, sim::kMt | sim::kIo, 4, 14) {
  int nt = (int)sim::Range(1, 3), steps = (int)sim::Range(4, 24);
  sim::Describe("clocks threads=%d steps=%d", nt, steps);
  sim::EnableFaults(kTime);
  std::vector<std::vector<int>> plan(nt);
  std::vector<std::vector<int64_t>> arg(nt);
  for (int t = 0; t < nt; ++t) for (int i = 0; i < steps; ++i) { plan[t].push_back((int)sim::Below(9)); arg[t].push_back((int64_t)sim::Below(3000000)); }
  TimeTicks shared;
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; ++t)
    Launch(ts, [&, t] {
      base::TimeInterval iv;
      base::TimeStamp st;
      int64_t iv_lo = 0, iv_hi = 0, st_lo = 0, st_hi = 0;  // bounds of the remembered reading, us
      bool iv_set = false, st_set = false;
      TimeTicks last;
      auto us = [] { return (int64_t)(sim::NowNs() / 1000); };
      for (int i = 0; i < steps; ++i) {
        int64_t lo = us();
        switch (plan[t][i]) {
          case 0: {
            TimeTicks n = TimeTicks::Now();
            int64_t hi = us();
            SIM_CHECK(n >= last, "monotonic reading went back");
            SIM_CHECK(n.since_origin().InMicroseconds() >= lo && n.since_origin().InMicroseconds() <= hi, "ticks %lld outside [%lld, %lld]", (long long)n.since_origin().InMicroseconds(), (long long)lo, (long long)hi);
            last = n;
            break;
          }
          case 1: {  // readings of different threads are ordered too
            pthread_mutex_lock(&mu);
            TimeTicks n = TimeTicks::Now();
            SIM_CHECK(n >= shared, "monotonic reading went back between threads");
            shared = n;
            pthread_mutex_unlock(&mu);
            break;
          }
          case 2: { iv.Reset(); iv_lo = lo; iv_hi = us(); iv_set = true; break; }
          case 3: case 4: {
            bool up = plan[t][i] == 3;
            TimeDelta d = iv.GetTimeDelta(up);
            int64_t hi = us(), v = d.InMicroseconds();
            if (iv_set) SIM_CHECK(v >= lo - iv_hi && v <= hi - iv_lo, "interval of %lld us measured as %lld", (long long)(hi - iv_lo), (long long)v);
            else SIM_CHECK(v == 0, "first interval is %lld", (long long)v);
            if (up) { iv_lo = lo; iv_hi = hi; iv_set = true; }
            break;
          }
          case 5: {
            TimeDelta d = st.GetTimeDelta(true);
            int64_t hi = us(), v = d.InMicroseconds();
            if (!st_set) { SIM_CHECK(v == 0, "first stamp is %lld", (long long)v); st_lo = lo; st_hi = hi; st_set = true; }
            else SIM_CHECK(v >= lo - st_hi && v <= hi - st_lo, "stamp measured %lld", (long long)v);
            break;
          }
          case 6: {
            if (!st_set) break;
            TimeDelta d = st.GetTimeDelta(false);
            int64_t hi = us(), v = d.InMicroseconds();
            SIM_CHECK(v >= lo - st_hi && v <= hi - st_lo, "stamp measured %lld", (long long)v);
            break;
          }
          case 7: base::PlatformThread::Sleep(base::Microseconds(arg[t][i])); break;
          default: (void)base::Time::Now(); break;  // gives the wall clock a chance to jump
        }
      }
    });
  JoinAll(ts);
}
SIM_SCENARIO("C19", wall_clock, sim::kIo, 1, 8) {
  for (int i = 0; i < 6; ++i) {
    sim::DisableFaults();
    int64_t a = sim::WallNs() / 1000;
    int64_t n = base::Time::Now().ToDeltaSinceUnixEpoch().InMicroseconds();
    int64_t b = sim::WallNs() / 1000;
    SIM_CHECK(n >= a && n <= b, "wall clock reads %lld outside [%lld, %lld]", (long long)n, (long long)a, (long long)b);
    sim::EnableFaults(kTime);
    (void)base::Time::Now();
    base::PlatformThread::Sleep(base::Microseconds(sim::Below(100000)));
  }
}

namespace {
constexpr int64_t kMax = INT64_MAX, kMin = INT64_MIN;
int64_t Sat(i128 v) { return v > kMax ? kMax : v < kMin ? kMin : (int64_t)v; }
int64_t Num() {
  static const int64_t e[] = {0, 1, -1, 2, -2, 999, 1000, 1001, 999999, 1000000, 1000001, -999999, -1000000, -1000001, 59999999, 60000000, 3600000000ll, 86399999999ll, 86400000000ll, -86400000001ll, kMax, kMax - 1, kMin, kMin + 1, kMax / 1000, kMax / 1000 + 1, kMax / 1000000, kMax / 1000000 + 1, kMin / 1000000, kMin / 1000000 - 1, kMax / 2, kMin / 2, INT_MAX, INT_MIN, (int64_t)INT_MAX * 60000000, (int64_t)INT_MIN * 3600000000ll};
  switch (sim::Below(4)) {
    case 0: return sim::Pick(e);
    case 1: return (int64_t)sim::Rand() >> sim::Below(64);
    case 2: { int64_t b = sim::Pick(e); int64_t d = (int64_t)sim::Below(5) - 2; return Sat((i128)b + d); }
    default: return (int64_t)sim::Below(20000000) - 10000000;
  }
}
TimeDelta D(int64_t v) { return TimeDelta::FromInternalValue(v); }
int64_t V(TimeDelta d) { return d.InMicroseconds(); }
bool Inf(int64_t v) { return v == kMax || v == kMin; }
i128 FloorDiv(i128 a, i128 b) { i128 q = a / b; return q * b > a ? q - 1 : q; }
int SatInt(i128 v) { return v > INT_MAX ? INT_MAX : v < INT_MIN ? INT_MIN : (int)v; }
#define EQ(got, want) do { auto g_ = (got); decltype(g_) w_ = (decltype(g_))(want); SIM_CHECK(g_ == w_, "%s of %lld, %lld is %lld, not %lld", #got, (long long)a, (long long)b, (long long)g_, (long long)w_); } while (0)
}  // namespace

SIM_SCENARIO("C19", durations, 0, 3, 1) {
  int64_t a = Num(), b = Num();
  TimeDelta x = D(a), y = D(b);
  sim::Describe("durations %lld %lld", (long long)a, (long long)b);
  // addition and subtraction
  if (!Inf(b)) {
    EQ(V(x + y), Sat((i128)a + b));
    EQ(V(x - y), Sat((i128)a - b));
    TimeDelta z = x; z += y; EQ(V(z), Sat((i128)a + b));
    z = x; z -= y; EQ(V(z), Sat((i128)a - b));
  } else {
    if (!Inf(a) || a == b) EQ(V(x + y), b);
    if (a != b) EQ(V(x - y), b < 0 ? kMax : kMin);
  }
  EQ(V(-x), a == kMax ? kMin : Sat(-(i128)a));
  EQ(V(x.magnitude()), Sat(a < 0 ? -(i128)a : (i128)a));
  // scaling
  EQ(V(x * b), Sat((i128)a * b));
  EQ(V(b * x), Sat((i128)a * b));
  if (b != 0) EQ(V(x / b), Sat((i128)a / b));
  TimeDelta z = x; z *= b; EQ(V(z), Sat((i128)a * b));
  if (b != 0) { z = x; z /= b; EQ(V(z), Sat((i128)a / b)); }
  if (b != 0 && !Inf(a) && !Inf(b)) { EQ(x.IntDiv(y), Sat((i128)a / b)); EQ(V(x % y), (int64_t)((i128)a % b)); z = x; z %= y; EQ(V(z), (int64_t)((i128)a % b)); }
  if (b == 0 && a != 0) { EQ(x.IntDiv(y), a < 0 ? kMin : kMax); EQ(V(x % y), a); }
  // comparison
  SIM_CHECK((x < y) == (a < b) && (x <= y) == (a <= b) && (x == y) == (a == b) && (x != y) == (a != b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparison of %lld and %lld", (long long)a, (long long)b);
  SIM_CHECK(x.is_zero() == (a == 0) && x.is_positive() == (a > 0) && x.is_negative() == (a < 0) && x.is_max() == (a == kMax) && x.is_min() == (a == kMin) && x.is_inf() == Inf(a), "classification of %lld", (long long)a);
  // units, from integers
  EQ(V(base::Days(a)), Sat((i128)a * 86400000000ll));
  EQ(V(base::Hours(a)), Sat((i128)a * 3600000000ll));
  EQ(V(base::Minutes(a)), Sat((i128)a * 60000000ll));
  EQ(V(base::Seconds(a)), Sat((i128)a * 1000000));
  EQ(V(base::Milliseconds(a)), Sat((i128)a * 1000));
  EQ(V(base::Microseconds(a)), a);
  EQ(V(base::Nanoseconds(a)), a / 1000);
  EQ(V(TimeDelta::FromChrono(std::chrono::minutes(a))), Sat((i128)a * 60000000));
  EQ(V(TimeDelta::FromChronoHours(std::chrono::hours(a))), Sat((i128)a * 3600000000ll));
  EQ(V(TimeDelta::FromChronoMinutes(std::chrono::minutes(a))), Sat((i128)a * 60000000ll));
  EQ(V(TimeDelta::FromChronoSeconds(std::chrono::seconds(a))), Sat((i128)a * 1000000));
  EQ(V(TimeDelta::FromChronoMilliseconds(std::chrono::milliseconds(a))), Sat((i128)a * 1000));
  EQ(V(TimeDelta::FromChronoMicroseconds(std::chrono::microseconds(a))), a);
  EQ(V(TimeDelta::FromChronoNanoseconds(std::chrono::nanoseconds(a))), a / 1000);
  // units, to integers
  if (!Inf(a)) {
    EQ(x.InDays(), a / 86400000000ll);
    EQ(x.InDaysFloored(), (int)FloorDiv(a, 86400000000ll));
    EQ(x.InSeconds(), a / 1000000);
    EQ(x.InSecondsFloored(), (int64_t)FloorDiv(a, 1000000));
    EQ(x.InMilliseconds(), a / 1000);
    EQ(x.InMillisecondsRoundedUp(), (int64_t)(-FloorDiv(-(i128)a, 1000)));
    EQ(x.InSecondsF(), (double)a / 1e6);
    EQ(x.InMillisecondsF(), (double)a / 1e3);
    EQ(x.InMicrosecondsF(), (double)a);
  } else {
    EQ(x.InDays(), a < 0 ? INT_MIN : INT_MAX);
    EQ(x.InDaysFloored(), a < 0 ? INT_MIN : INT_MAX);
    EQ(x.InSeconds(), a); EQ(x.InSecondsFloored(), a); EQ(x.InMilliseconds(), a); EQ(x.InMillisecondsRoundedUp(), a);
    SIM_CHECK(std::isinf(x.InSecondsF()) && (x.InSecondsF() < 0) == (a < 0), "infinite seconds");
  }
  EQ(x.InHours(), SatInt((i128)a / 3600000000ll));
  EQ(x.InMinutes(), SatInt((i128)a / 60000000));
  EQ(x.InNanoseconds(), Sat((i128)a * 1000));
  EQ(x.ToChronoSeconds().count(), x.InSeconds());
  EQ(x.ToChronoMilliseconds().count(), x.InMilliseconds());
  EQ(x.ToChronoMicroseconds().count(), a);
  EQ(x.ToChronoNanoseconds().count(), Sat((i128)a * 1000));
  // rounding to a multiple
  if (!Inf(a) && !Inf(b) && b != 0) {
    i128 m = b < 0 ? -(i128)b : (i128)b;
    i128 fl = FloorDiv(a, m) * m, ce = fl == a ? fl : fl + m;
    if (fl - m >= kMin && ce + m <= kMax) {
      EQ(V(x.FloorToMultiple(y)), (int64_t)fl);
      EQ(V(x.CeilToMultiple(y)), (int64_t)ce);
      i128 r = V(x.RoundToMultiple(y));
      i128 dist = a > r ? a - r : r - a;
      if (a + m < kMax && a - m > kMin) SIM_CHECK(r % m == 0 && dist * 2 <= m && (dist * 2 != m || (r > a) == (a > 0)), "%lld rounded to a multiple of %lld is %lld", (long long)a, (long long)b, (long long)r);
    }
  }
  if (b == 0) { EQ(V(x.FloorToMultiple(y)), a); EQ(V(x.CeilToMultiple(y)), a); EQ(V(x.RoundToMultiple(y)), a); }
  if (Inf(a)) { EQ(V(x.FloorToMultiple(y)), a); EQ(V(x.CeilToMultiple(y)), a); EQ(V(x.RoundToMultiple(y)), a); }
  else if (Inf(b)) EQ(V(x.RoundToMultiple(y)), 0);
  // other libraries' durations and points in time; what goes through a double may be off by a microsecond or two
  EQ(x.ToChronoHours().count(), x.InHours());
  EQ(x.ToChronoMinutes().count(), x.InMinutes());
  auto near = [](int64_t got, int64_t want) { return got >= want - 2 && got <= want + 2; };
  if (!Inf(a)) {
    EQ(V(TimeDelta::FromAbsl(x.ToAbsl())), a);
    EQ(V(base::Time::FromAbsl((base::Time() + x).ToAbsl()).ToDeltaSinceUnixEpoch()), a);
  }
  if (a > -4000000000000000ll && a < 4000000000000000ll) {
    base::Time p = base::Time() + x;
    TimeTicks q = TimeTicks() + x;
    EQ(std::chrono::duration_cast<std::chrono::nanoseconds>(p.ToChrono().time_since_epoch()).count(), a * 1000);
    EQ(std::chrono::duration_cast<std::chrono::nanoseconds>(q.ToChrono().time_since_epoch()).count(), a * 1000);
    SIM_CHECK(near(V(base::Time::FromChrono(p.ToChrono()).ToDeltaSinceUnixEpoch()), a), "%lld us from a system clock's reading", (long long)a);
    SIM_CHECK(near(V(TimeTicks::FromChrono(q.ToChrono()).since_origin()), a), "%lld us from a steady clock's reading", (long long)a);
    SIM_CHECK(near(V(base::Time::FromDoubleT(p.ToDoubleT()).ToDeltaSinceUnixEpoch()), a), "%lld us from seconds", (long long)a);
    int64_t fl = (int64_t)FloorDiv(a, 1000000);
    timespec ts{(time_t)fl, (long)((a - fl * 1000000) * 1000)};
    SIM_CHECK(near(V(base::Time::FromTimeSpec(ts).ToDeltaSinceUnixEpoch()), a), "%lld us from a timespec", (long long)a);
  }
  if (Inf(a)) {
    base::Time p = base::Time() + x;
    SIM_CHECK(std::isinf(p.ToDoubleT()) && (p.ToDoubleT() < 0) == (a < 0) && base::Time::FromDoubleT(p.ToDoubleT()) == p, "an unbounded time in seconds");
    EQ(std::chrono::duration_cast<std::chrono::nanoseconds>(p.ToChrono().time_since_epoch()).count(), a);
  }
  // rates
  if (b > 0 && b <= 1000000) EQ(V(base::Hertz(b)), 1000000 / b);
  if (b == 0) EQ(V(base::Hertz(b)), kMax);
  // durations written down
  struct { const char* suffix; i128 us; bool is_int; } units[] = {{"d", 86400000000ll, true}, {"h", 3600000000ll, true}, {"m", 60000000, true}, {"s", 1000000, false}, {"ms", 1000, false}, {"us", 1, false}, {"ns", 0, false}, {"", 0, true}};
  for (auto& un : units) {
    std::string text = std::to_string(a) + un.suffix, reason;
    TimeDelta got;
    bool ok = base::FlagValueTraits<TimeDelta>::ParseValue(text, &got, &reason);
    bool want = un.suffix[0] != '\0' && (!un.is_int || (a >= INT_MIN && a <= INT_MAX));
    SIM_CHECK(ok == want, "\"%s\" is %s", text.c_str(), ok ? "accepted" : "refused");
    if (ok) { int64_t w = un.us == 0 ? a / 1000 : Sat((i128)a * un.us); SIM_CHECK(V(got) == w, "\"%s\" is %lld us", text.c_str(), (long long)V(got)); }
    else SIM_CHECK(!reason.empty(), "\"%s\" is refused without a reason", text.c_str());
  }
  // timespec
  if (a >= 0) {
    timespec ts = x.ToTimeSpec();
    if (!Inf(a)) { EQ((int64_t)ts.tv_sec, a / 1000000); EQ((int64_t)ts.tv_nsec, a % 1000000 * 1000); EQ(V(TimeDelta::FromTimeSpec(ts)), a); }
    else SIM_CHECK(ts.tv_sec >= kMax / 1000000 && ts.tv_nsec >= 0 && ts.tv_nsec < 1000000000, "an unbounded duration became %lld s %lld ns", (long long)ts.tv_sec, (long long)ts.tv_nsec);
  } else {
    timespec ts = x.ToTimeSpec();
    EQ(V(TimeDelta::FromTimeSpec(ts)), a);
  }
  timespec in{(time_t)a, (long)(b < 0 ? -(b + 1) : b) % 1000000000};
  if ((i128)a * 1000000 >= kMin) EQ(V(TimeDelta::FromTimeSpec(in)), Sat((i128)a * 1000000 + in.tv_nsec / 1000));
  else SIM_CHECK(V(TimeDelta::FromTimeSpec(in)) < kMin + 1000000, "a time before the beginning became %lld", (long long)V(TimeDelta::FromTimeSpec(in)));
  // points in time
  TimeTicks t = TimeTicks() + x;
  EQ(V(t.since_origin()), a);
  if (!Inf(b)) { EQ(V((t + y).since_origin()), Sat((i128)a + b)); EQ(V((t - y).since_origin()), Sat((i128)a - b)); }
  TimeTicks u = TimeTicks() + y;
  EQ(V(t - u), Sat((i128)a - b));
  SIM_CHECK((t < u) == (a < b) && (t == u) == (a == b) && (t >= u) == (a >= b), "comparison of ticks");
  base::Time w = base::Time::FromDeltaSinceUnixEpoch(x);
  EQ(V(w.ToDeltaSinceUnixEpoch()), a);
  if (!Inf(a)) {
    EQ((int64_t)w.ToTimeT(), (int64_t)FloorDiv(a, 1000000));
    if (a >= 0) { timeval tv = w.ToTimeVal(); EQ((int64_t)tv.tv_sec, a / 1000000); EQ((int64_t)tv.tv_usec, a % 1000000); EQ(V(base::Time::FromTimeVal(tv).ToDeltaSinceUnixEpoch()), a); }
  } else {
    EQ((int64_t)w.ToTimeT(), a);
  }
  EQ(V(base::Time::FromTimeT(a).ToDeltaSinceUnixEpoch()), Sat((i128)a * 1000000));
}

// ---------------------------------------------------------------------------------------- C20
namespace {
struct Body : base::PlatformThread::Delegate {
  std::function<void()> f;
  void ThreadMain() override { f(); }
};
constexpr uint32_t kThreads = sim::Bit(sim::kThreadFail) | sim::Bit(sim::kStall) | sim::Bit(sim::kDelay) | sim::Bit(sim::kEintr);
}  // namespace
SIM_SCENARIO("C20", create_join, sim::kMt | sim::kIo, 5, 16) {
  int n = (int)sim::Range(1, 6);
  size_t stack = sim::Chance(1, 3) ? 0 : sim::Range(1, 16) * 65536;
  std::vector<int> how(n), order(n), type(n);
  for (int i = 0; i < n; ++i) { how[i] = (int)sim::Below(4); type[i] = (int)sim::Below(3); order[i] = i; }
  for (int i = n - 1; i > 0; --i) std::swap(order[i], order[sim::Below(i + 1)]);
  sim::Describe("threads n=%d stack=%zu", n, stack);
  std::vector<int> runs(n, 0), effect(n, 0);   // plain memory: visible only after the join
  std::vector<std::atomic<int>> done(n);
  for (auto& d : done) d = 0;
  std::vector<base::PlatformThreadId> id(n, 0);
  std::vector<base::PlatformThreadHandle> self(n);
  std::vector<Body> body(n);
  base::PlatformThreadId mine = base::PlatformThread::CurrentId();
  for (int i = 0; i < n; ++i) {
    body[i].f = [&, i] {
      runs[i]++;
      id[i] = base::PlatformThread::CurrentId();
      self[i] = base::PlatformThread::CurrentHandle();
      for (int k = 0; k < 3; ++k) {
        base::PlatformThread::YieldCurrentThread();
        SIM_CHECK(base::PlatformThread::CurrentId() == id[i], "identity changed within a thread");
      }
      if (how[i] == 1) base::PlatformThread::Sleep(base::Milliseconds(5));
      SIM_CHECK(base::PlatformThread::CurrentRef() == base::PlatformThreadRef(self[i].platform_handle()), "reference differs from the handle");
      effect[i] = 41;
      sim::Yield();
      effect[i]++;
      done[i] = 1;
    };
  }
  std::vector<base::PlatformThreadHandle> h(n);
  std::vector<char> made(n), joinable(n), detached(n);
  LOG(ERROR) << "the first message sets up the logger";
  size_t live = sim::HeapLiveBlocks();
  sim::EnableFaults(kThreads);
  uint32_t refused = 0;
  for (int i = 0; i < n; ++i) {
    uint32_t before = sim::FaultsInjected();
    bool ok;
    static const base::ThreadType kT[] = {base::ThreadType::kDefault, base::ThreadType::kDefault, base::ThreadType::kCompositing};
    joinable[i] = how[i] != 3;
    if (how[i] == 3) ok = type[i] ? base::PlatformThread::CreateNonJoinableWithType(stack, &body[i], kT[type[i]]) : base::PlatformThread::CreateNonJoinable(stack, &body[i]);
    else ok = type[i] ? base::PlatformThread::CreateWithType(stack, &body[i], &h[i], kT[type[i]]) : base::PlatformThread::Create(stack, &body[i], &h[i]);
    made[i] = ok;
    if (!ok) { refused++; SIM_CHECK(sim::FaultsInjected() > before, "a thread was not created although nothing refused it"); if (joinable[i]) SIM_CHECK(h[i].is_null(), "a refused thread has a handle"); }
    else if (joinable[i]) SIM_CHECK(!h[i].is_null(), "a created thread has no handle");
  }
  sim::DisableFaults();
  for (int i : order) {
    if (!made[i] || !joinable[i]) continue;
    if (how[i] == 2) { base::PlatformThread::Detach(h[i]); detached[i] = 1; continue; }
    base::PlatformThread::Join(h[i]);
    SIM_CHECK(runs[i] == 1 && effect[i] == 42 && done[i] == 1, "join returned before the body had finished (runs %d)", runs[i]);
    SIM_CHECK(self[i].is_equal(h[i]), "a thread's own handle is not its creator's");
  }
  // the others end by themselves
  for (int i = 0; i < n; ++i)
    if (made[i] && (!joinable[i] || detached[i])) while (!done[i]) base::PlatformThread::Sleep(base::Milliseconds(1));
  while (sim::LiveThreads() > 1) { base::PlatformThread::Sleep(base::Milliseconds(1)); }
  size_t left = sim::HeapLiveBlocks();
  std::set<base::PlatformThreadId> ids{mine};
  for (int i = 0; i < n; ++i) {
    SIM_CHECK(runs[i] == (made[i] ? 1 : 0), "the body of a thread that was %s ran %d times", made[i] ? "created" : "refused", runs[i]);
    if (made[i]) { SIM_CHECK(id[i] != base::kInvalidThreadId, "invalid identity"); SIM_CHECK(ids.insert(id[i]).second, "two threads share an identity"); }
  }
  SIM_CHECK(base::PlatformThread::CurrentId() == mine, "the creator's identity changed");
  sim::Count("refused threads", refused);
  SIM_CHECK(left <= live, "%zu allocations leaked by thread creation", left - live);
}
SIM_SCENARIO("C20", refused_thread, sim::kMt | sim::kIo, 2, 10) {
  // whatever is refused, repeated attempts neither run the body twice nor leak
  int n = (int)sim::Range(1, 8);
  sim::Describe("repeated creation attempts=%d", n);
  int runs = 0, made = 0;
  Body b;
  b.f = [&] { runs++; };
  LOG(ERROR) << "the first message sets up the logger";
  base::PlatformThreadHandle warm;
  if (base::PlatformThread::Create(0, &b, &warm)) { base::PlatformThread::Join(warm); made++; }
  size_t live = sim::HeapLiveBlocks();
  sim::EnableFaults(sim::Bit(sim::kThreadFail));
  for (int i = 0; i < n; ++i) {
    base::PlatformThreadHandle h;
    if (base::PlatformThread::Create(sim::Chance(1, 2) ? 0 : 1 << 17, &b, &h)) { made++; base::PlatformThread::Join(h); SIM_CHECK(runs == made, "body ran %d times for %d threads", runs, made); }
    else SIM_CHECK(runs == made, "the body of a refused thread ran");
  }
  SIM_CHECK(sim::HeapLiveBlocks() == live, "%zd allocations leaked", (ssize_t)(sim::HeapLiveBlocks() - live));
}
SIM_SCENARIO("C20", nested_threads, sim::kMt | sim::kIo, 2, 12) {
  // threads created by threads; ids of simultaneously live threads are distinct
  int depth = (int)sim::Range(1, 4);
  sim::Describe("nested threads depth=%d", depth);
  sim::EnableFaults(kThreads);
  std::vector<base::PlatformThreadId> chain{base::PlatformThread::CurrentId()};
  std::vector<Body> body(depth + 1);
  std::vector<int> entered(depth + 1);
  std::function<void(int)> go = [&](int k) {
    if (k == depth) return;
    body[k].f = [&, k] {
      entered[k]++;
      auto id = base::PlatformThread::CurrentId();
      for (auto o : chain) SIM_CHECK(o != id, "identity shared with a live thread");
      chain.push_back(id);
      go(k + 1);
      SIM_CHECK(base::PlatformThread::CurrentId() == id, "identity changed");
      chain.pop_back();
    };
    base::PlatformThreadHandle h;
    if (base::PlatformThread::Create(0, &body[k], &h)) { base::PlatformThread::Join(h); SIM_CHECK(entered[k] == 1 && (int)chain.size() == k + 1, "join returned early"); }
    else SIM_CHECK(!entered[k], "the body of a refused thread ran");
  };
  go(0);
}

// ---------------------------------------------------------------------------------------- C21
namespace {
// What lies under the tracking allocator: hands out blocks of a small arena, reusing the most recently freed one.
class Arena : public device::Allocator {
 public:
  Arena(bool tracks, bool slow) : tracks_(tracks), slow_(slow) {}
  ~Arena() override { for (auto& b : blocks_) free(b.p); }
  std::string Name() override { return "arena"; }
  void* AllocateRaw(size_t al, size_t n) override {
    if (sim::FaultAt(sim::kAllocFail)) { refused++; return nullptr; }
    pthread_mutex_lock(&mu_);
    asked++;
    size_t best = blocks_.size();
    for (size_t i = 0; i < blocks_.size(); ++i)
      if (!blocks_[i].used && blocks_[i].cap >= n && (best == blocks_.size() || blocks_[i].stamp > blocks_[best].stamp)) best = i;
    if (best == blocks_.size()) { size_t cap = Round(n); blocks_.push_back({malloc(cap ? cap : 1), cap, 0, false, 0, 0}); }
    Blk& b = blocks_[best];
    b.used = true; b.req = n; b.id = ++ids_;
    void* p = b.p;
    pthread_mutex_unlock(&mu_);
    sim::Yield();
    return p;
  }
  void DeallocateRaw(void* p) override {
    pthread_mutex_lock(&mu_);
    Blk* b = Find(p);
    SIM_CHECK(b && b->used, "the underlying allocator was given a block back that it had not handed out");
    b->used = false; b->stamp = ++stamp_;
    freed++;
    pthread_mutex_unlock(&mu_);
    sim::Yield();
  }
  bool TracksAllocationSizes() const override { return tracks_; }
  size_t RequestedSize(const void* p) const override { return Get(p).req; }
  size_t AllocatedSize(const void* p) const override { return Get(p).cap; }
  int64_t AllocationId(const void* p) const override { return Get(p).id; }
  size_t AllocatedSizeSlow(const void* p) const override { return slow_ ? Get(p).cap : 0; }
  std::optional<device::AllocatorStats> GetStats() override { device::AllocatorStats s; s.num_allocs = 77; return s; }
  bool ClearStats() override { cleared++; return true; }
  int cleared = 0;
  static size_t Round(size_t n) { return (n + 31) / 32 * 32; }
  int refused = 0, asked = 0, freed = 0;
 private:
  struct Blk { void* p; size_t cap, req; bool used; uint64_t stamp; int64_t id; };
  Blk* Find(const void* p) { for (auto& b : blocks_) if (b.p == p) return &b; return nullptr; }
  Blk Get(const void* p) const {
    pthread_mutex_lock(&mu_);
    Blk* b = const_cast<Arena*>(this)->Find(p);
    SIM_CHECK(b && b->used, "size asked of a block that is not allocated");
    Blk c = *b;
    pthread_mutex_unlock(&mu_);
    return c;
  }
  std::vector<Blk> blocks_;
  mutable pthread_mutex_t mu_ = PTHREAD_MUTEX_INITIALIZER;
  uint64_t stamp_ = 0;
  int64_t ids_ = 0;
  bool tracks_, slow_;
};
class Tracked : public device::TrackingAllocator {
 public:
  Tracked(device::Allocator* a, bool ids, std::atomic<int>* dead) : TrackingAllocator(a, ids), dead_(dead) {}
 private:
  ~Tracked() override { (*dead_)++; }
  std::atomic<int>* dead_;
};
}  // namespace
SIM_SCENARIO("C21", accounting, sim::kMt | sim::kIo, 6, 16) {
  bool inner = sim::Chance(1, 3), slow = sim::Chance(1, 2), local = sim::Chance(3, 4);
  bool tracked = inner || local;
  int nt = (int)sim::Range(1, 4), ops = (int)sim::Range(2, 10);
  bool leave = sim::Chance(1, 2);   // owner leaves while blocks are still allocated
  sim::Describe("tracking inner=%d slow=%d local=%d threads=%d ops=%d leave=%d", inner, slow, local, nt, ops, leave);
  Arena arena(inner, slow);
  std::atomic<int> dead{0};
  device::AllocatorWrapper wrapper(&arena);
  bool wrap = sim::Chance(1, 3);
  Tracked* ta = new Tracked(wrap ? static_cast<device::Allocator*>(&wrapper) : &arena, local, &dead);
  SIM_CHECK(ta->TracksAllocationSizes() == tracked, "TracksAllocationSizes");
  SIM_CHECK(ta->Name() == "arena", "does not forward to what it wraps");
  if (!wrap) SIM_CHECK(ta->GetStats()->num_allocs == 77 && ta->ClearStats() && arena.cleared == 1, "statistics are not those of what it wraps");
  size_t pad[4]; (void)pad;
  struct Op { int kind; size_t size, pick; };
  std::vector<std::vector<Op>> plan(nt);
  for (auto& p : plan) for (int i = 0; i < ops; ++i) { size_t z[] = {0, 1, 31, 32, 33, 64, 100, 1000}; p.push_back({(int)sim::Below(6), sim::Chance(1, 2) ? sim::Pick(z) : sim::Range(1, 300), sim::Rand()}); }
  sim::EnableFaults(sim::Bit(sim::kAllocFail) | sim::Bit(sim::kStall));
  struct Live { void* p; size_t req, alloc; int64_t id; };
  std::vector<std::vector<Live>> live(nt);
  std::atomic<uint64_t> begun{0}, ended{0}, total_lo{0}, total_hi{0}, sub_begun{0}, sub_ended{0}, nallocs{0}, nfrees{0};
  std::vector<std::thread> ts;
  auto AllocSize = [&](size_t n, size_t cap) { return inner ? cap : local ? std::max(n, slow ? cap : (size_t)0) : n; };
  for (int t = 0; t < nt; ++t)
    Launch(ts, [&, t] {
      for (const Op& op : plan[t]) {
        if (op.kind <= 2) {
          begun += 0;
          size_t hi = Arena::Round(op.size) + 2048;  // blocks are reused, so larger ones may be handed out
          total_hi += hi;
          void* p = ta->AllocateRaw(sim::Chance(1, 2) ? 64 : 16, op.size);
          if (!p) { total_hi -= hi; continue; }
          nallocs++;
          size_t want = 0;
          if (inner || (local && slow)) want = AllocSize(op.size, arena.AllocatedSize(p)); else want = op.size;
          total_lo += want;
          Live l{p, op.size, want, 0};
          if (tracked) {
            SIM_CHECK(ta->RequestedSize(p) == op.size, "requested size %zu of a block of %zu", ta->RequestedSize(p), op.size);
            SIM_CHECK(ta->AllocatedSize(p) == want, "allocated size %zu, not %zu", ta->AllocatedSize(p), want);
            l.id = ta->AllocationId(p);
            SIM_CHECK(l.id > 0, "no allocation id");
          }
          if (op.size) memset(p, t + 1, op.size);
          live[t].push_back(l);
        } else if (op.kind == 3 || op.kind == 4) {
          if (live[t].empty()) { ta->DeallocateRaw(nullptr); continue; }
          size_t k = op.pick % live[t].size();
          Live l = live[t][k];
          live[t].erase(live[t].begin() + k);
          if (tracked) SIM_CHECK(ta->RequestedSize(l.p) == l.req && ta->AllocatedSize(l.p) == l.alloc && ta->AllocationId(l.p) == l.id, "a live block's record changed");
          for (size_t i = 0; i < l.req; ++i) SIM_CHECK(((char*)l.p)[i] == (char)(t + 1), "a live block was handed out twice");
          sub_begun += l.alloc;
          ta->DeallocateRaw(l.p);
          sub_ended += l.alloc;
          nfrees++;
        } else {
          uint64_t tl = total_lo, se = sub_ended;
          auto [tot, peak, cur] = ta->GetSizes();
          uint64_t th = total_hi, sb = sub_begun;
          SIM_CHECK(tot >= tl && tot <= th, "total %zu outside [%llu, %llu]", tot, (unsigned long long)tl, (unsigned long long)th);
          if (tracked) { SIM_CHECK(peak >= cur && tot >= peak, "peak %zu live %zu total %zu", peak, cur, tot); SIM_CHECK(cur + sb >= tl && cur + se <= th, "live bytes %zu", cur); }
        }
      }
    });
  JoinAll(ts);
  sim::DisableFaults();
  SIM_CHECK(dead == 0, "destroyed while its owner still uses it");
  uint64_t want_live = 0, want_total = total_lo;
  std::set<int64_t> ids;
  size_t nlive = 0;
  for (auto& v : live) for (auto& l : v) { want_live += l.alloc; nlive++; if (tracked) SIM_CHECK(ids.insert(l.id).second, "two live blocks share an id"); }
  auto [tot, peak, cur] = ta->GetSizes();
  SIM_CHECK(tot == want_total, "total bytes %zu, not %llu", tot, (unsigned long long)want_total);
  SIM_CHECK(cur == (tracked ? want_live : 0), "live bytes %zu, not %llu", cur, (unsigned long long)want_live);
  auto judge = [&](const auto& rec) {
    int64_t sum = 0, top = 0, pos = 0;
    size_t na = 0, nf = 0;
    base::TimeTicks last;
    for (auto& r : rec) { SIM_CHECK(r.alloc_time >= last, "records out of order"); last = r.alloc_time; if (r.alloc_bytes > 0) pos += r.alloc_bytes; sum += r.alloc_bytes; top = std::max(top, sum); }
    (void)na; (void)nf;
    SIM_CHECK(rec.size() == nallocs + (tracked ? (uint64_t)nfrees : 0), "%zu records of %llu allocations and %llu releases", rec.size(), (unsigned long long)nallocs, (unsigned long long)nfrees);
    SIM_CHECK((uint64_t)pos == tot, "records add up to %lld, not %zu", (long long)pos, tot);
    if (tracked) SIM_CHECK((size_t)sum == cur && (size_t)top == peak, "records give live %lld and peak %lld, statistics %zu and %zu", (long long)sum, (long long)top, cur, peak);
  };
  judge(ta->GetCurrentRecords());
  auto freeall = [&](int t) { for (auto& l : live[t]) ta->DeallocateRaw(l.p); live[t].clear(); };
  if (!leave) {
    for (int t = 0; t < nt; ++t) freeall(t);
    SIM_CHECK(std::get<2>(ta->GetSizes()) == 0, "live bytes after everything was released");
    SIM_CHECK(dead == 0, "destroyed before its owner left");
    ta->GetRecordsAndUnRef();
    SIM_CHECK(dead == 1, "not destroyed after the owner left and the last block was released");
  } else {
    // the owner leaves while others release the last blocks concurrently
    std::vector<std::thread> tt;
    Launch(tt, [&] { auto r = ta->GetRecordsAndUnRef(); });
    for (int t = 0; t < nt; ++t) Launch(tt, [&, t] { freeall(t); });
    JoinAll(tt);
    SIM_CHECK(dead == 1, "destroyed %d times after the owner and the last block were gone", dead.load());
  }
  SIM_CHECK(arena.asked == arena.freed, "%d blocks allocated, %d released underneath", arena.asked, arena.freed);
}
SIM_SCENARIO("C21", owner_leaves_first, sim::kMt | sim::kIo, 3, 12) {
  bool inner = sim::Chance(1, 2);
  int n = (int)sim::Range(0, 5);
  sim::Describe("owner leaves with %d blocks inner=%d", n, inner);
  Arena arena(inner, false);
  std::atomic<int> dead{0};
  size_t live0 = sim::HeapLiveBlocks();
  (void)live0;
  Tracked* ta = new Tracked(&arena, true, &dead);
  std::vector<void*> p;
  size_t sum = 0;
  for (int i = 0; i < n; ++i) { size_t z = sim::Range(1, 200); void* q = ta->AllocateRaw(16, z); p.push_back(q); sum += inner ? arena.AllocatedSize(q) : z; }
  auto rec = ta->GetRecordsAndUnRef();
  SIM_CHECK(rec.size() == (size_t)n, "%zu records", rec.size());
  if (!n) { SIM_CHECK(dead == 1, "not destroyed when the owner left"); return; }
  SIM_CHECK(dead == 0, "destroyed with live blocks");
  SIM_CHECK(std::get<2>(ta->GetSizes()) == sum, "live bytes");
  SIM_CHECK(ta->GetCurrentRecords().empty(), "records handed over twice");
  std::vector<std::thread> ts;
  for (int i = 1; i < n; ++i) Launch(ts, [&, i] { ta->DeallocateRaw(p[i]); });
  JoinAll(ts);
  SIM_CHECK(dead == 0, "destroyed before the last block was released");
  ta->DeallocateRaw(p[0]);
  SIM_CHECK(dead == 1, "not destroyed exactly once (%d)", dead.load());
}
namespace {
struct Sub : device::SubAllocator {
  Sub(int node, int prio) : device::SubAllocator({}, {}), node(node), prio(prio) {}
  void* Alloc(size_t, size_t n, size_t* got) override { *got = n; return malloc(n); }
  void Free(void* p, size_t) override { free(p); }
  bool SupportsCoalescing() const override { return false; }
  int node, prio;
};
struct Named : Arena {
  explicit Named(int prio) : Arena(false, false), prio(prio) {}
  int prio;
};
struct Factory : device::AllocatorFactory {
  Factory(int prio, bool numa, std::atomic<int>* made) : prio(prio), numa(numa), made(made) {}
  bool NumaEnabled() override { return numa; }
  device::Allocator* CreateAllocator() override { (*made)++; sim::Yield(); return new Named(prio); }
  device::SubAllocator* CreateSubAllocator(int node) override { (*made)++; sim::Yield(); return new Sub(node, prio); }
  int prio;
  bool numa;
  std::atomic<int>* made;
};
}  // namespace
SIM_SCENARIO("C21", registry, sim::kMt, 3, 12) {
  int n = (int)sim::Range(1, 5), nt = (int)sim::Range(1, 4);
  sim::Describe("registry factories=%d callers=%d", n, nt);
  device::AllocatorFactoryRegistry reg;
  std::atomic<int> made{0};
  int best = -1, best_sub = -1;
  bool sub_numa = false;
  std::vector<int> prios;
  for (int i = 0; i < 20; ++i) prios.push_back(i * (int)sim::Range(1, 3) % 20 + i * 20);
  for (int i = 19; i > 0; --i) std::swap(prios[i], prios[sim::Below(i + 1)]);
  for (int i = 0; i < n; ++i) {
    int p = prios[i];
    bool numa = sim::Chance(1, 3);
    reg.Register("f", i, sim::Chance(1, 3) ? "same" : "n" + std::to_string(i), p, new Factory(p, numa, &made));
    best = std::max(best, p);
    if (numa && !sub_numa) { sub_numa = true; best_sub = p; }
    else if (numa == sub_numa) best_sub = std::max(best_sub, p);
  }
  std::vector<device::Allocator*> a(nt * 2);
  std::vector<device::SubAllocator*> s(nt * 2);
  bool want_sub = sim::Chance(1, 2);
  int node = sim::Chance(1, 2) ? 0 : device::kNUMANoAffinity;
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; ++t)
    Launch(ts, [&, t] { for (int k = 0; k < 2; ++k) { if (want_sub) s[t * 2 + k] = reg.GetSubAllocator(node); else a[t * 2 + k] = reg.GetAllocator(); } });
  JoinAll(ts);
  if (want_sub) {
    for (auto* x : s) { SIM_CHECK(x == s[0], "callers got different instances"); SIM_CHECK(((Sub*)x)->prio == best_sub && ((Sub*)x)->node == node, "sub-allocator of priority %d for node %d", ((Sub*)x)->prio, ((Sub*)x)->node); }
    device::SubAllocator* other = reg.GetSubAllocator(node == 0 ? device::kNUMANoAffinity : 0);
    SIM_CHECK(other != s[0] && made == 2 && reg.GetSubAllocator(node) == s[0], "one sub-allocator per node");
  } else {
    for (auto* x : a) { SIM_CHECK(x == a[0], "callers got different instances"); SIM_CHECK(((Named*)x)->prio == best, "allocator of priority %d instead of %d", ((Named*)x)->prio, best); }
    SIM_CHECK(made == 1, "%d allocators were made", made.load());
  }
}
namespace {
// Hands out blocks and tells the visitors, as implementations have to.
struct Visited : device::SubAllocator {
  using SubAllocator::SubAllocator;
  void* Alloc(size_t, size_t n, size_t* got) override {
    if (sim::FaultAt(sim::kAllocFail)) { *got = 0; return nullptr; }
    *got = (n + 63) / 64 * 64;
    void* p = malloc(*got + 1);
    VisitAlloc(p, 3, *got);
    return p;
  }
  void Free(void* p, size_t n) override { VisitFree(p, 3, n); free(p); }
  bool SupportsCoalescing() const override { return false; }
};
}  // namespace
SIM_SCENARIO("C21", visitors, sim::kMt, 1, 8) {
  size_t na = sim::Below(4), nf = sim::Below(4);
  int nt = (int)sim::Range(1, 3);
  sim::Describe("%zu visitors of allocations, %zu of releases, %d threads", na, nf, nt);
  struct Event { int who; void* p; int index; size_t n; bool alloc; };
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  std::vector<Event> log;
  std::vector<device::SubAllocator::Visitor> va, vf;
  auto see = [&](int who, bool alloc) { return [&, who, alloc](void* p, int index, size_t n) { pthread_mutex_lock(&mu); log.push_back({who, p, index, n, alloc}); pthread_mutex_unlock(&mu); }; };
  for (size_t i = 0; i < na; ++i) va.push_back(see((int)i, true));
  for (size_t i = 0; i < nf; ++i) vf.push_back(see((int)i, false));
  Visited sub(va, vf);
  SIM_CHECK(sub.GetMemoryType() == device::AllocatorMemoryType::kUnknown, "memory type");
  sim::EnableFaults(sim::Bit(sim::kAllocFail));
  std::vector<std::vector<std::pair<void*, size_t>>> done(nt);
  std::vector<size_t> sizes;
  for (int i = 0; i < nt * 3; ++i) sizes.push_back(sim::Range(1, 200));
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; ++t)
    Launch(ts, [&, t] {
      for (int k = 0; k < 3; ++k) {
        size_t got = 0;
        void* p = sub.Alloc(64, sizes[t * 3 + k], &got);
        if (!p) continue;
        done[t].push_back({p, got});
        sim::Yield();
      }
    });
  JoinAll(ts);
  for (auto& d : done) for (auto& b : d) {
    size_t k = 0;
    for (auto& e : log) if (e.alloc && e.p == b.first) { SIM_CHECK(e.n == b.second && e.index == 3, "a visitor saw %zu bytes instead of %zu", e.n, b.second); SIM_CHECK(e.who == (int)k, "visitor %d called in place %zu", e.who, k); ++k; }
    SIM_CHECK(k == na, "an allocation was shown to %zu of %zu visitors", k, na);
  }
  for (auto& d : done) for (auto& b : d) sub.Free(b.first, b.second);
  size_t frees = 0, all = 0;
  for (auto& e : log) frees += !e.alloc;
  for (auto& d : done) all += d.size();
  SIM_CHECK(frees == all * nf, "%zu releases were shown %zu times to %zu visitors", all, frees, nf);
  for (size_t i = log.size() - frees, k = 0; i < log.size(); ++i, ++k) SIM_CHECK(log[i].who == (int)(nf - 1 - k % nf), "visitors of a release are not called in reverse order");
  // Attributes of allocators.
  device::AllocatorAttributes a, b;
  uint32_t x = (uint32_t)sim::Below(8), y = (uint32_t)sim::Below(8);
  a.set_on_host(x & 1); a.set_nic_compatible(x >> 1 & 1); a.set_gpu_compatible(x >> 2 & 1);
  b.set_on_host(y & 1); b.set_nic_compatible(y >> 1 & 1); b.set_gpu_compatible(y >> 2 & 1);
  SIM_CHECK(a.IsEqualOrLessRestrictiveThan(b) == ((x & ~y) == 0), "comparison of attributes %u and %u", x, y);
  a.Merge(b);
  uint32_t z = x | y;
  SIM_CHECK(a.on_host() == (z & 1) && a.nic_compatible() == (z >> 1 & 1) && a.gpu_compatible() == (z >> 2 & 1), "attributes %u and %u merged", x, y);
  SIM_CHECK(b.IsEqualOrLessRestrictiveThan(a), "merged attributes are less restrictive than one of them");
}
SIM_SCENARIO("C21", cpu_allocator, sim::kMt | sim::kIo, 2, 12) {
  int nt = (int)sim::Range(2, 4);
  bool full = sim::Chance(2, 3);
  sim::Describe("process allocator callers=%d full statistics=%d", nt, full);
  static std::atomic<int> made{0};
  device::AllocatorFactoryRegistry::Get().Register("f", 1, "arena", 5, new Factory(5, false, &made));
  if (full) device::EnableCPUAllocatorFullStats();
  std::vector<device::Allocator*> got(nt);
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; ++t)
    Launch(ts, [&, t] {
      got[t] = device::cpu_allocator();
      void* p = got[t]->AllocateRaw(16, 100);
      sim::Yield();
      device::Allocator* b = device::cpu_allocator();
      if (p) b->DeallocateRaw(p);
    });
  JoinAll(ts);
  for (auto* g : got) SIM_CHECK(g == got[0], "callers got different process allocators");
  SIM_CHECK(made == 1, "made %d times", made.load());
  if (full) { auto* t = static_cast<device::TrackingAllocator*>(got[0]); SIM_CHECK(t->TracksAllocationSizes(), "statistics were asked for but are not kept"); SIM_CHECK(std::get<2>(t->GetSizes()) == 0 && std::get<0>(t->GetSizes()) == 100u * nt, "statistics of the process allocator are wrong"); }
}
