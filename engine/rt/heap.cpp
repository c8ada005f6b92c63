// operator new/delete of plain (non-ASan) instrumented builds: freed memory loses its shadow, is
// overwritten and stays unused for a while, so that a use after free meets garbage; fresh memory is
// filled as AddressSanitizer does.
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
extern "C" void __sym_heap_free(void *);
extern "C" __attribute__((weak)) void __sym_race_alloc(void *, size_t) {}
extern "C" __attribute__((weak)) void __sym_race_free(void *, size_t) {}
static bool now; extern "C" void __sym_heap_now(int on) { now = on; }  // freed memory is used again at once, as by a usual allocator
static const size_t KEEP = 1 << 16, CAP = 48u << 20; static struct { void *p; size_t n; } ring[KEEP]; static size_t head, tail, total;
void *operator new(std::size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); __sym_race_alloc(p, malloc_usable_size(p)); memset(p, 0xbe, n < 4096 ? n : 4096); return p; }
void *operator new[](std::size_t n) { return operator new(n); }
static void drop() { free(ring[tail & (KEEP - 1)].p); total -= ring[tail & (KEEP - 1)].n; tail++; }
void operator delete(void *p) noexcept {
  if (!p) return; __sym_heap_free(p); size_t n = malloc_usable_size(p); __sym_race_free(p, n); memset(p, 0xfe, n < 4096 ? n : 4096); if (now) { free(p); return; }
  while (head - tail >= KEEP || (head != tail && total + n > CAP)) drop();
  ring[head & (KEEP - 1)] = {p, n}; head++; total += n;
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
