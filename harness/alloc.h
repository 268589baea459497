// Counts live heap blocks. Include in exactly one translation unit of a harness.
#pragma once
#include "mc.h"
#include <atomic>
#include <cstdlib>
#include <malloc.h>
#include <new>

namespace alloc {
// Address reuse: AddressSanitizer keeps freed blocks aside for long, so that an
// object is never created where an earlier one lived. With a reuse policy in
// force, freed blocks are handed out again by size: the lowest address first
// (repeating a history repeats its addresses) or the one freed last.
enum Policy { PLAIN, LOWEST, LIFO };
inline Policy policy = PLAIN;
struct Bucket { void **p = nullptr; std::size_t n = 0, cap = 0; };
inline Bucket buckets[65];
inline void drain() {
  for (auto &b : buckets) while (b.n) std::free(b.p[--b.n]);
}
inline void use(Policy p) { if (policy != p) { drain(); policy = p; } }
// Fault injection: while armed, the fail_at-th allocation (and with `stay` every
// later one) fails.
inline bool armed = false, stay = false, delivered = false;
inline long fail_at = 0, seen = 0;
inline void tick() {
  if (!armed) return;
  long k = seen++;
  if (k == fail_at || (stay && k > fail_at)) { delivered = true; throw std::bad_alloc(); }
}
inline void *take(std::size_t k) {
  Bucket &b = buckets[k];
  if (!b.n) return nullptr;
  void *r;
  if (policy == LIFO) return b.p[--b.n];
  r = b.p[0];                                   // a heap, smallest first
  void *last = b.p[--b.n];
  std::size_t i = 0;
  for (;;) {
    std::size_t c = 2 * i + 1;
    if (c >= b.n) break;
    if (c + 1 < b.n && b.p[c + 1] < b.p[c]) c++;
    if (b.p[c] >= last) break;
    b.p[i] = b.p[c];
    i = c;
  }
  if (b.n) b.p[i] = last;
  return r;
}
inline bool keep(void *p) {
  std::size_t n = malloc_usable_size(p);
  if (n % 16 || n == 0 || n > 1024) return false;
  Bucket &b = buckets[n / 16];
  if (b.n == b.cap) {
    std::size_t cap = b.cap ? 2 * b.cap : 256;
    void **q = (void **)std::realloc(b.p, cap * sizeof(void *));
    if (!q) return false;
    b.p = q; b.cap = cap;
  }
  std::size_t i = b.n++;
  if (policy == LOWEST)
    while (i && p < b.p[(i - 1) / 2]) { b.p[i] = b.p[(i - 1) / 2]; i = (i - 1) / 2; }
  b.p[i] = p;
  return true;
}
// Who wants to know which blocks come and go.
inline void (*on_get)(void *, std::size_t) = nullptr;
inline void (*on_put)(void *) = nullptr;
inline std::atomic<long> live{0};
inline std::atomic<long> total{0};
inline void *get(std::size_t n) {
  tick();
  void *p = nullptr;
  if (policy != PLAIN && n <= 1024) {
    n = n ? (n + 15) / 16 * 16 : 16;
    p = take(n / 16);
  }
  if (!p) p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  live.fetch_add(1, std::memory_order_relaxed);
  total.fetch_add(1, std::memory_order_relaxed);
  if (on_get) on_get(p, n);
  return p;
}
inline void *get(std::size_t n, std::size_t al) {
  tick();
  void *p = nullptr;
  if (posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n ? n : 1)) throw std::bad_alloc();
  live.fetch_add(1, std::memory_order_relaxed);
  total.fetch_add(1, std::memory_order_relaxed);
  return p;
}
inline void put(void *p) {
  if (!p) return;
  live.fetch_sub(1, std::memory_order_relaxed);
  if (on_put) on_put(p);
  if (policy == PLAIN || !keep(p)) std::free(p);
}
}  // namespace alloc

namespace mc {
// The same family, run with address reuse: the objects of a case live where those
// of the case before it lived.
inline Family reused(Family f) {
  f.name += "-reused-addresses";
  f.rule += "; objects are created at the addresses of earlier ones";
  auto run = f.run;
  f.run = [run](u64 i) {
    alloc::use((i / 32) % 2 ? alloc::LIFO : alloc::LOWEST);
    run(i);
  };
  return f;
}
inline void add_reused(std::vector<Family> &fs, const std::vector<std::string> &names) {
  for (auto &n : names)
    for (std::size_t i = 0, k = fs.size(); i < k; i++)
      if (fs[i].name == n) { Family f = reused(fs[i]); fs.push_back(f); }
}
}

void *operator new(std::size_t n) { return alloc::get(n); }
void *operator new[](std::size_t n) { return alloc::get(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return alloc::get(n); } catch (...) { return nullptr; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return alloc::get(n); } catch (...) { return nullptr; } }
void *operator new(std::size_t n, std::align_val_t a) { return alloc::get(n, (std::size_t)a); }
void *operator new[](std::size_t n, std::align_val_t a) { return alloc::get(n, (std::size_t)a); }
void operator delete(void *p) noexcept { alloc::put(p); }
void operator delete[](void *p) noexcept { alloc::put(p); }
void operator delete(void *p, std::size_t) noexcept { alloc::put(p); }
void operator delete[](void *p, std::size_t) noexcept { alloc::put(p); }
void operator delete(void *p, std::align_val_t) noexcept { alloc::put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { alloc::put(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { alloc::put(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { alloc::put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { alloc::put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { alloc::put(p); }
