#ifndef VERIF_RT_HEAP_H_
#define VERIF_RT_HEAP_H_
#include <stddef.h>
namespace rt {
// While one is alive on this thread, allocations belong to the runtime.
struct HeapScope {
  static thread_local int depth;
  HeapScope() { ++depth; }
  ~HeapScope() { --depth; }
};
bool HeapOwns(const void* p);
bool HeapAccessible(const void* p, size_t n);
}  // namespace rt
#endif
