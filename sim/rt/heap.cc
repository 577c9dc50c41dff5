// Deterministic heap: fixed addresses, seeded garbage in fresh and freed memory,
// and a shadow map that lets every instrumented access be checked.
#include <errno.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "rt.h"
#include "heap.h"

namespace rt {
namespace {
constexpr uint32_t kMagic = 0x51A11C8D, kFreed = 0xDEADF8EE;
struct Hdr { uint32_t magic, cls; uint64_t size; uint32_t off; uint32_t seq; uint64_t pad; };
static_assert(sizeof(Hdr) == 32);
constexpr int kClasses = 64 + 4 * 40;
struct Cls { Hdr* head; Hdr* tail; uint32_t n; };
struct Heap {
  uintptr_t cur, end;
  Cls cls[kClasses];
  size_t live_blocks, live_bytes;
};
Heap g_boot, g_run;
bool g_init;
uint64_t g_junk = 0xCDCDCDCDCDCDCDCDull;

int ClassOf(size_t n, size_t* rounded) {
  if (n <= 1024) {
    size_t c = n ? (n - 1) / 16 : 0;
    *rounded = (c + 1) * 16;
    return (int)c;
  }
  int lg = 63 - __builtin_clzll(n - 1);  // 2^lg <= n-1
  size_t base = size_t{1} << lg, step = base / 4;
  size_t k = (n - base + step - 1) / step;  // 1..4
  *rounded = base + k * step;
  return 64 + (lg - 10) * 4 + (int)k - 1;
}
void Init() {
  g_init = true;
  long r = Sys(SYS_mmap, kArenaBase, kArenaSize, PROT_READ | PROT_WRITE,
               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  long q = Sys(SYS_mmap, kShadowBase, kArenaSize / 8, PROT_READ | PROT_WRITE,
               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != (long)kArenaBase || q != (long)kShadowBase) {
    const char m[] = "heap: cannot map arena\n";
    Sys(SYS_write, 2, (long)m, sizeof(m) - 1);
    Sys(SYS_exit_group, 70);
  }
  g_boot.cur = kArenaBase;
  g_boot.end = kArenaBase + kArenaSize / 2;
  g_run.cur = g_boot.end;
  g_run.end = kArenaBase + kArenaSize;
}
inline uint8_t* Shadow(uintptr_t a) { return (uint8_t*)(kShadowBase + ((a - kArenaBase) >> 3)); }
void Unpoison(uintptr_t a, size_t n) {
  memset(Shadow(a), 8, n / 8);
  if (n & 7) *Shadow(a + n) = n & 7;
}
void Poison(uintptr_t a, size_t n) { memset(Shadow(a), 0, (n + 7) / 8); }
void Junk(void* p, size_t n, uint64_t v) {
  uint64_t* q = (uint64_t*)p;
  size_t k = (n + 7) / 8;
  for (size_t i = 0; i < k; ++i) q[i] = v;
}
Heap* Cur() { return (g_on && !HeapScope::depth) ? &g_run : &g_boot; }

void* Alloc(size_t n, size_t align) {
  if (!g_init) Init();
  if (n > kArenaSize / 8) { errno = ENOMEM; return nullptr; }
  Heap* h = Cur();
  size_t extra = align > 16 ? align : 0, rounded;
  int c = ClassOf(n + extra + 8, &rounded);  // +8: at least one poisoned granule after
  Cls& k = h->cls[c];
  uint32_t quarantine = rounded <= 4096 ? 16 : rounded <= (1 << 20) ? 4 : 1;
  Hdr* b;
  if (k.n > quarantine) {
    b = k.head;
    memcpy(&k.head, (char*)b + sizeof(Hdr), sizeof(Hdr*));
    if (!k.head) k.tail = nullptr;
    k.n--;
  } else {
    size_t total = rounded + sizeof(Hdr);
    if (h->cur + total > h->end) { errno = ENOMEM; return nullptr; }
    b = (Hdr*)h->cur;
    h->cur += total;
  }
  b->magic = kMagic; b->cls = c; b->size = n; b->off = 0;
  uintptr_t u = (uintptr_t)(b + 1);
  if (extra) {
    uintptr_t v = (u + align - 1) & ~(align - 1);
    if (v != u) {
      Hdr* f = (Hdr*)v - 1;
      f->magic = kMagic; f->cls = c; f->size = n; f->off = (uint32_t)(v - u);
      u = v;
    }
  }
  h->live_blocks++;
  h->live_bytes += n;
  Unpoison(u, n);
  if (h == &g_run) Junk((void*)u, n, g_junk);
  return (void*)u;
}
void Release(void* p) {
  uintptr_t u = (uintptr_t)p;
  if (u < kArenaBase || u >= kArenaBase + kArenaSize) return;  // not ours (early boot)
  Hdr* f = (Hdr*)p - 1;
  if (f->magic != kMagic) {
    if (g_on) EndRun(5, f->magic == kFreed ? "memory error: double free" : "memory error: free of a pointer that was not allocated");
    return;
  }
  Heap* h = u < g_boot.end ? &g_boot : &g_run;
  size_t n = f->size;
  int c = f->cls;
  Hdr* b = (Hdr*)((char*)f - f->off);
  f->magic = kFreed;
  b->magic = kFreed;
  h->live_blocks--;
  h->live_bytes -= n;
  if (h == &g_run) Junk(p, n, ~g_junk);
  Poison(u, n);
  Cls& k = h->cls[c];
  Hdr* null = nullptr;
  memcpy((char*)b + sizeof(Hdr), &null, sizeof(Hdr*));
  if (k.tail) memcpy((char*)k.tail + sizeof(Hdr), &b, sizeof(Hdr*)); else k.head = b;
  k.tail = b;
  k.n++;
}
size_t SizeOf(void* p) { return ((Hdr*)p - 1)->size; }
}  // namespace

thread_local int HeapScope::depth = 0;

void HeapEnterRun(uint64_t junk) { g_junk = junk; }

bool HeapOwns(const void* p) { return (uintptr_t)p - kArenaBase < kArenaSize; }
bool HeapAccessible(const void* p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  if (a - kArenaBase >= kArenaSize) return true;
  for (uintptr_t e = a + n; a < e;) {
    uintptr_t g = (a & ~7ull) + 8, stop = g < e ? g : e;
    if (*Shadow(a) < 8 - (g - stop) ) return false;
    a = stop;
  }
  return true;
}
}  // namespace rt

namespace sim {
size_t HeapLiveBlocks() { return rt::g_run.live_blocks; }
size_t HeapLiveBytes() { return rt::g_run.live_bytes; }
bool HeapValid(const void* p, size_t n) { return rt::HeapAccessible(p, n); }
}

extern "C" {
void* malloc(size_t n) { return rt::Alloc(n, 16); }
void free(void* p) { if (p) rt::Release(p); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = rt::Alloc(n, 16);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return rt::Alloc(n, 16);
  if (!n) { rt::Release(p); return nullptr; }
  void* q = rt::Alloc(n, 16);
  if (!q) return nullptr;
  size_t old = rt::SizeOf(p);
  memcpy(q, p, old < n ? old : n);
  rt::Release(p);
  return q;
}
void* memalign(size_t a, size_t n) { return rt::Alloc(n, a); }
void* aligned_alloc(size_t a, size_t n) { return rt::Alloc(n, a); }
int posix_memalign(void** out, size_t a, size_t n) {
  void* p = rt::Alloc(n, a);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* valloc(size_t n) { return rt::Alloc(n, 4096); }
void* pvalloc(size_t n) { return rt::Alloc((n + 4095) & ~4095ull, 4096); }
size_t malloc_usable_size(void* p) { return p ? rt::SizeOf(p) : 0; }
}
