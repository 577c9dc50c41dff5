// C01: parallel loop helpers cover every element exactly once and in order.
#include <numeric>
#include <vector>
#include "sim.h"
#include "tachyon/base/containers/container_util.h"
#include "tachyon/base/parallelize.h"

using namespace tachyon;

namespace {
size_t PickSize() {
  switch (sim::Below(8)) {
    case 0: return sim::Below(4);
    case 1: return sim::Range(1, 17);
    case 2: return sim::Range(15, 70);
    case 3: return (size_t)1 << sim::Range(0, 9);
    case 4: return ((size_t)1 << sim::Range(1, 9)) + 1;
    case 5: return ((size_t)1 << sim::Range(1, 9)) - 1;
    case 6: return sim::Range(0, 3000);
    default: return sim::Range(0, 300);
  }
}
size_t PickChunk(size_t n) {
  switch (sim::Below(6)) {
    case 0: return sim::Range(1, 4);
    case 1: return n ? sim::Range(1, n) : 1;
    case 2: return n + sim::Below(3);
    case 3: return n > 1 ? n - 1 : 1;
    case 4: return n / 2 + 1;
    default: return sim::Range(1, 64);
  }
}
struct Rec { size_t off, len, idx, csize; bool used = false; };
// What the callbacks reported, one slot per possible chunk index.
struct Log {
  std::vector<std::vector<Rec>> by_idx;
  const int* base;
  explicit Log(size_t n, const int* b) : by_idx(n + 2), base(b) {}
};
void CheckCover(const std::vector<Rec>& recs, size_t n, size_t chunk, const char* what) {
  size_t expect = 0, k = 0;
  for (const Rec& r : recs) {
    SIM_CHECK(r.off == expect, "%s: chunk %zu starts at %zu instead of %zu (n=%zu chunk=%zu)", what, k, r.off, expect, n, chunk);
    SIM_CHECK(r.len > 0, "%s: empty chunk %zu", what, k);
    SIM_CHECK(r.len <= chunk || !chunk, "%s: chunk %zu has %zu elements, more than %zu", what, k, r.len, chunk);
    expect += r.len;
    ++k;
  }
  SIM_CHECK(expect == n, "%s: %zu of %zu elements covered", what, expect, n);
}
}  // namespace

// Chunked loops over a container, with every callback arity, static and dynamic.
SIM_SCENARIO("C01", chunked_for, sim::kOmp | sim::kSameOutcome, 3, 14) {
  size_t n = PickSize(), chunk = PickChunk(n);
  int form = (int)sim::Below(9);
  if (sim::Chance(1, 40)) chunk = 0;
  sim::Describe("form=%d n=%zu chunk=%zu", form, n, chunk);
  std::vector<int> v(n), hits(n, 0);
  std::iota(v.begin(), v.end(), 100);
  size_t slots = chunk ? n / chunk + 2 : 1;
  std::vector<Rec> recs(slots);
  int* b = v.data();
  auto note = [&](size_t idx, size_t off, size_t len, size_t cs) {
    SIM_CHECK(idx < slots, "chunk index %zu out of range", idx);
    SIM_CHECK(!recs[idx].used, "chunk %zu visited twice", idx);
    recs[idx] = Rec{off, len, idx, cs, true};
  };
  switch (form) {
    case 0: base::ParallelizeByChunkSize(v, chunk, [&](absl::Span<int> s) {
        size_t off = s.data() - b;
        note(off / chunk, off, s.size(), chunk);
        for (int& x : s) { hits[&x - b]++; x = x * 3 + 1; }
      }); break;
    case 1: base::ParallelizeByChunkSize(v, chunk, [&](absl::Span<int> s, size_t i) {
        note(i, s.data() - b, s.size(), chunk);
        for (int& x : s) { hits[&x - b]++; x = x * 3 + 1; }
      }); break;
    case 2: base::ParallelizeByChunkSize(v, chunk, [&](absl::Span<int> s, size_t i, size_t cs) {
        note(i, s.data() - b, s.size(), cs);
        SIM_CHECK(i * cs == (size_t)(s.data() - b), "offset does not match index*size");
        for (int& x : s) { hits[&x - b]++; x = x * 3 + 1; }
      }); break;
    case 3: base::DynamicParallelizeByChunkSize(v, chunk, [&](absl::Span<int> s, size_t i, size_t cs) {
        note(i, s.data() - b, s.size(), cs);
        SIM_CHECK(i * cs == (size_t)(s.data() - b), "offset does not match index*size");
        for (int& x : s) { hits[&x - b]++; x = x * 3 + 1; }
      }); break;
    case 4: base::DynamicParallelizeByChunkSize(v, chunk, [&](absl::Span<int> s) {
        size_t off = s.data() - b;
        note(off / chunk, off, s.size(), chunk);
        for (int& x : s) { hits[&x - b]++; x = x * 3 + 1; }
      }); break;
    case 5: base::ParallelizeByChunkSize(n, chunk, [&](size_t len, size_t i, size_t cs) {
        note(i, i * cs, len, cs);
        for (size_t k = 0; k < len; ++k) { hits[i * cs + k]++; v[i * cs + k] = v[i * cs + k] * 3 + 1; }
      }); break;
    case 6: base::ParallelizeByChunkSize(n, chunk, [&](size_t len, size_t i) {
        note(i, i * chunk, len, chunk);
        for (size_t k = 0; k < len; ++k) { hits[i * chunk + k]++; v[i * chunk + k] = v[i * chunk + k] * 3 + 1; }
      }); break;
    case 7: base::DynamicParallelizeByChunkSize(n, chunk, [&](size_t len, size_t i, size_t cs) {
        note(i, i * cs, len, cs);
        for (size_t k = 0; k < len; ++k) { hits[i * cs + k]++; v[i * cs + k] = v[i * cs + k] * 3 + 1; }
      }); break;
    default: base::DynamicParallelizeByChunkSize(n, chunk, [&](size_t len, size_t i) {
        note(i, i * chunk, len, chunk);
        for (size_t k = 0; k < len; ++k) { hits[i * chunk + k]++; v[i * chunk + k] = v[i * chunk + k] * 3 + 1; }
      }); break;
  }
  if (chunk == 0) {
    for (int h : hits) SIM_CHECK(h == 0, "a zero chunk size must do nothing");
    return;
  }
  std::vector<Rec> r;
  for (size_t i = 0; i < slots; ++i)
    if (recs[i].used) {
      SIM_CHECK(r.size() == i, "chunk %zu was skipped", r.size());
      r.push_back(recs[i]);
    }
  CheckCover(r, n, chunk, "chunked loop");
  for (size_t i = 0; i < n; ++i) {
    SIM_CHECK(hits[i] == 1, "element %zu visited %d times", i, hits[i]);
    SIM_CHECK(v[i] == (int)(i + 100) * 3 + 1, "element %zu has the wrong value", i);
  }
  sim::Outcome(v.data(), n * sizeof(int));
}

// One chunk per thread, with and without a threshold.
SIM_SCENARIO("C01", per_thread_for, sim::kOmp, 3, 14) {
  size_t n = PickSize();
  std::optional<size_t> thr;
  if (sim::Chance(1, 2)) thr = sim::Pick((size_t[]){0, 1, n, n ? n - 1 : 0, n + 1, 16});
  int form = (int)sim::Below(5);
  sim::Describe("form=%d n=%zu threshold=%zd", form, n, thr ? (ssize_t)*thr : -1);
  std::vector<int> v(n), hits(n, 0);
  std::iota(v.begin(), v.end(), 0);
  int* b = v.data();
  std::vector<Rec> recs(n + 2);
  auto note = [&](size_t idx, size_t off, size_t len, size_t cs) {
    SIM_CHECK(idx < recs.size(), "chunk index out of range");
    SIM_CHECK(!recs[idx].used, "chunk %zu visited twice", idx);
    recs[idx] = Rec{off, len, idx, cs, true};
  };
  std::vector<size_t> mapped;
  bool map = false;
  switch (form) {
    case 0: base::Parallelize(v, [&](absl::Span<int> s, size_t i, size_t cs) {
        note(i, s.data() - b, s.size(), cs);
        for (int& x : s) hits[&x - b]++;
      }, thr); break;
    case 1: base::Parallelize(n, [&](size_t len, size_t i, size_t cs) {
        note(i, i * cs, len, cs);
        for (size_t k = 0; k < len; ++k) hits[i * cs + k]++;
      }, thr); break;
    case 2: mapped = base::ParallelizeMap(v, [&](absl::Span<int> s, size_t i, size_t cs) -> size_t {
        note(i, s.data() - b, s.size(), cs);
        for (int& x : s) hits[&x - b]++;
        return (s.data() - b) * 7 + s.size();
      }, thr); map = true; break;
    case 3: mapped = base::ParallelizeMap(n, [&](size_t len, size_t i, size_t cs) -> size_t {
        note(i, i * cs, len, cs);
        for (size_t k = 0; k < len; ++k) hits[i * cs + k]++;
        return i * cs * 7 + len;
      }, thr); map = true; break;
    default: {
      const std::vector<int>& cv = v;
      mapped = base::ParallelizeMap(cv, [&](absl::Span<const int> s, size_t i) -> size_t {
        note(i, s.data() - b, s.size(), 0);
        for (const int& x : s) hits[&x - b]++;
        return (s.data() - b) * 7 + s.size();
      }, thr);
      map = true;
      break;
    }
  }
  std::vector<Rec> r;
  for (size_t i = 0; i < recs.size(); ++i)
    if (recs[i].used) {
      SIM_CHECK(r.size() == i, "chunk %zu was skipped", r.size());
      r.push_back(recs[i]);
    }
  CheckCover(r, n, 0, "per-thread loop");
  SIM_CHECK(r.size() <= (size_t)sim::Threads() || n == 0, "%zu chunks for %d threads", r.size(), sim::Threads());
  for (size_t i = 0; i < n; ++i) SIM_CHECK(hits[i] == 1, "element %zu visited %d times", i, hits[i]);
  if (map) {
    SIM_CHECK(mapped.size() == r.size(), "%zu mapped values for %zu chunks", mapped.size(), r.size());
    for (size_t i = 0; i < r.size(); ++i) SIM_CHECK(mapped[i] == r[i].off * 7 + r[i].len, "mapped value %zu is out of order", i);
  }
}

SIM_SCENARIO("C01", map_by_chunk, sim::kOmp | sim::kSameOutcome, 2, 14) {
  size_t n = PickSize(), chunk = PickChunk(n);
  int form = (int)sim::Below(4);
  if (sim::Chance(1, 40)) chunk = 0;
  sim::Describe("form=%d n=%zu chunk=%zu", form, n, chunk);
  std::vector<uint32_t> v(n);
  for (auto& x : v) x = (uint32_t)sim::Rand();
  auto sum = [](absl::Span<const uint32_t> s, size_t i) {
    uint64_t t = i * 1000003;
    for (uint32_t x : s) t = t * 31 + x;
    return t;
  };
  std::vector<uint64_t> got, want;
  switch (form) {
    case 0: got = base::ParallelizeMapByChunkSize(v, chunk, [&](absl::Span<uint32_t> s, size_t i) { return sum(s, i); }); break;
    case 1: got = base::ParallelizeMapByChunkSize(v, chunk, [&](absl::Span<uint32_t> s, size_t i, size_t) { return sum(s, i); }); break;
    case 2: got = base::ParallelizeMapByChunkSize(v, chunk, [&](absl::Span<uint32_t> s) { return sum(s, (s.data() - v.data()) / chunk); }); break;
    default: got = base::ParallelizeMapByChunkSize(n, chunk, [&](size_t len, size_t i, size_t cs) { return sum(absl::Span<const uint32_t>(v.data() + i * cs, len), i); }); break;
  }
  if (chunk)
    for (size_t o = 0, i = 0; o < n; o += chunk, ++i) want.push_back(sum(absl::Span<const uint32_t>(v.data() + o, std::min(chunk, n - o)), i));
  SIM_CHECK(got == want, "mapped values differ from the sequential ones (n=%zu chunk=%zu)", n, chunk);
  if (sim::Chance(1, 3)) {  // results that are true or false
    auto odd = [](uint64_t x) { return (x >> 5 & 1) != 0; };
    std::vector<bool> got2, want2;
    if (form & 1) got2 = base::ParallelizeMapByChunkSize(v, chunk, [&](absl::Span<uint32_t> s, size_t i) { return odd(sum(s, i)); });
    else got2 = base::ParallelizeMapByChunkSize(n, chunk, [&](size_t len, size_t i, size_t cs) { return odd(sum(absl::Span<const uint32_t>(v.data() + i * cs, len), i)); });
    for (uint64_t x : want) want2.push_back(odd(x));
    SIM_CHECK(got2 == want2, "mapped truth values differ from the sequential ones (n=%zu chunk=%zu)", n, chunk);
  }
  sim::Outcome(got.data(), got.size() * 8);
}

SIM_SCENARIO("C01", fill_resize_create, sim::kOmp | sim::kSameOutcome, 3, 14) {
  size_t n = PickSize(), m = sim::Chance(1, 3) ? n + sim::Below(3) - (n ? sim::Below(2) : 0) : PickSize();
  int form = (int)sim::Below(6);
  size_t cap = sim::Chance(1, 2) ? std::max(n, m) + sim::Below(20) : 0;
  std::optional<size_t> thr;
  if (sim::Chance(1, 2)) thr = sim::Pick((size_t[]){0, 1, n, m, 16});
  sim::Describe("form=%d n=%zu m=%zu reserve=%zu", form, n, m, cap);
  std::vector<uint32_t> v;
  if (cap) v.reserve(cap);
  v.resize(n);
  for (auto& x : v) x = (uint32_t)sim::Rand();
  std::vector<uint32_t> old = v;
  uint32_t val = (uint32_t)sim::Rand();
  switch (form) {
    case 0:
      base::ParallelizeFill(v, val, thr);
      SIM_CHECK(v.size() == n, "fill changed the size");
      for (size_t i = 0; i < n; ++i) SIM_CHECK(v[i] == val, "element %zu not filled", i);
      break;
    case 1:
      base::ParallelizeResize(v, m, thr);
      SIM_CHECK(v.size() == m, "resize to %zu gave %zu", m, v.size());
      for (size_t i = 0; i < std::min(n, m); ++i) SIM_CHECK(v[i] == old[i], "resize lost element %zu", i);
      for (size_t i = n; i < m; ++i) SIM_CHECK(v[i] == 0, "new element %zu is not value-initialised", i);
      break;
    case 2: case 3:
      base::ParallelizeResize(v, m, val, thr);
      SIM_CHECK(v.size() == m, "resize to %zu gave %zu", m, v.size());
      for (size_t i = 0; i < std::min(n, m); ++i) SIM_CHECK(v[i] == old[i], "resize lost element %zu", i);
      for (size_t i = n; i < m; ++i) SIM_CHECK(v[i] == val, "new element %zu is not the given value", i);
      break;
    case 4:
      v = base::CreateVectorParallel(n, [](size_t i) { return (uint32_t)(i * 2654435761u); });
      SIM_CHECK(v.size() == n, "wrong size");
      for (size_t i = 0; i < n; ++i) SIM_CHECK(v[i] == (uint32_t)(i * 2654435761u), "element %zu", i);
      break;
    default:
      v = base::CreateVectorParallel(n, [val]() { return val; });
      SIM_CHECK(v.size() == n, "wrong size");
      for (size_t i = 0; i < n; ++i) SIM_CHECK(v[i] == val, "element %zu", i);
      break;
  }
  sim::Outcome(v.data(), v.size() * 4);
}

// A move-only-like element type must not be lost, doubled or read after its container.
SIM_SCENARIO("C01", resize_owned, sim::kOmp | sim::kSameOutcome, 1, 10) {
  size_t n = sim::Below(200), m = sim::Below(260);
  sim::Describe("n=%zu m=%zu", n, m);
  {
    std::vector<std::string> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = "element number " + std::to_string(i) + " with a long enough text";
    if (sim::Chance(1, 2)) v.reserve(300);
    if (sim::Chance(1, 2)) base::ParallelizeResize(v, m, std::string("filler that does not fit in the small buffer"));
    else base::ParallelizeResize(v, m);
    SIM_CHECK(v.size() == m, "size");
    for (size_t i = 0; i < std::min(n, m); ++i) {
      SIM_CHECK(v[i] == "element number " + std::to_string(i) + " with a long enough text", "element %zu", i);
      sim::Outcome(v[i].data(), v[i].size());
    }
  }
  SIM_CHECK(sim::HeapLiveBlocks() < 64, "%zu heap blocks leaked", sim::HeapLiveBlocks());
}
