// operator new/delete with deterministic fill: uninitialised and freed memory read the same on every run and is conspicuous.
#include <cstdlib>
#include <cstring>
#include <new>
#include <malloc.h>
static inline void* A(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0xA5, n); return p; }
static inline void* AA(size_t n, size_t a) { void* p = nullptr; if (posix_memalign(&p, a < 8 ? 8 : a, n ? n : 1)) throw std::bad_alloc(); memset(p, 0xA5, n); return p; }
static inline void F(void* p) { if (!p) return; size_t n = malloc_usable_size(p); memset(p, 0xDD, n > 4096 ? 4096 : n); free(p); }
void* operator new(size_t n) { return A(n); }
void* operator new[](size_t n) { return A(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { return AA(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return AA(n, (size_t)a); }
void operator delete(void* p) noexcept { F(p); }
void operator delete[](void* p) noexcept { F(p); }
void operator delete(void* p, size_t) noexcept { F(p); }
void operator delete[](void* p, size_t) noexcept { F(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { F(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { F(p); }
void operator delete(void* p, std::align_val_t) noexcept { F(p); }
void operator delete[](void* p, std::align_val_t) noexcept { F(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { F(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { F(p); }
