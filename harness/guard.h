// Heap blocks that end at an unreadable page.  In the "guard" build malloc and free of the library and of the harness
// come here (linker --wrap), so that generated code, which no sanitizer instruments, faults on an access past the end of
// an operand or of an arena block; bytes before a block and in the rounding behind it are checked when it is freed.
#pragma once
#ifdef VF_GUARD
#include <sys/mman.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <vector>
extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
namespace guard {
constexpr size_t kPage = 4096, kSlots = 512, kClasses = 10;  // 1, 2, 4 ... 512 pages
constexpr size_t kMark = 16;
struct Class {
  char* base = nullptr;
  size_t stride = 0, room = 0;
  std::vector<uint32_t> free;  // used as a queue, so that a freed block is not reused at once
  size_t head = 0;
  std::vector<size_t> size, round;
};
inline Class g_class[kClasses];
inline uint64_t g_broken = 0, g_blocks = 0;
inline bool g_big = false;
inline std::recursive_mutex g_mu;
inline void Init(Class& c, size_t k) {
  c.room = kPage << k;
  c.stride = c.room + kPage;
  size_t slots = k < 2 ? 4096 : k < 5 ? 512 : 48;
  c.base = static_cast<char*>(mmap(nullptr, c.stride * slots + kPage, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (c.base == MAP_FAILED) abort();
  for (size_t i = 0; i < slots; i++) {
    if (mprotect(c.base + i * c.stride, c.room, PROT_READ | PROT_WRITE) != 0) abort();
    c.free.push_back(static_cast<uint32_t>(i));
  }
  c.size.assign(slots, 0), c.round.assign(slots, 0);
}
inline void* Alloc(size_t n, size_t align = 8) {
  std::lock_guard<std::recursive_mutex> l(g_mu);
  size_t r = (n + align - 1) / align * align, k = 0;  // arena blocks are 8-aligned
  while (k < kClasses && r + kMark > (kPage << k)) k++;
  if (k == kClasses) {
    g_big = true;
    return __real_malloc(n);
  }
  Class& c = g_class[k];
  if (!c.base) Init(c, k);
  if (c.head == c.free.size()) {
    g_big = true;
    return __real_malloc(n);
  }
  uint32_t i = c.free[c.head++];
  if (c.head > 100000) c.free.erase(c.free.begin(), c.free.begin() + static_cast<long>(c.head)), c.head = 0;
  char* p = c.base + i * c.stride + c.room - r;
  memset(p - kMark, 0xA7, kMark);
  memset(p, 0xCD, r);
  memset(p + n, 0xA7, r - n);
  c.size[i] = n, c.round[i] = r;
  g_blocks++;
  return p;
}
inline Class* Of(void* q, size_t* i) {
  auto* p = static_cast<char*>(q);
  for (auto& c : g_class)
    if (c.base && p >= c.base && p < c.base + c.stride * c.size.size()) {
      *i = static_cast<size_t>(p - c.base) / c.stride;
      return &c;
    }
  return nullptr;
}
inline void Free(void* q) {
  if (!q) return;
  std::lock_guard<std::recursive_mutex> l(g_mu);
  size_t i;
  Class* c = Of(q, &i);
  if (!c) return __real_free(q);
  auto* p = static_cast<unsigned char*>(q);
  size_t n = c->size[i], r = c->round[i];
  for (size_t k = 0; k < kMark; k++)
    if (p[-static_cast<long>(kMark) + static_cast<long>(k)] != 0xA7) g_broken++;
  for (size_t k = n; k < r; k++)
    if (p[k] != 0xA7) g_broken++;
  memset(p, 0xDD, r < 256 ? r : 256);
  c->free.push_back(static_cast<uint32_t>(i));
}
}  // namespace guard
extern "C" void* __wrap_malloc(size_t n) { return guard::Alloc(n); }
extern "C" void __wrap_free(void* p) { guard::Free(p); }
#endif
