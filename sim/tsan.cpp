// Runtime for -fsanitize=thread instrumentation: every instrumented access is a possible preemption point.
#include <cstdint>
#include <cstddef>
#include <cstring>
namespace sim { void memSlow(); }
extern long g_memLeftX;
namespace sim { extern long g_memLeft; }
#define PT() do { if (__builtin_expect(--sim::g_memLeft <= 0, 0)) sim::memSlow(); } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
#define RW(n) void __tsan_read##n(void*) { PT(); } void __tsan_write##n(void*) { PT(); } void __tsan_unaligned_read##n(void*) { PT(); } void __tsan_unaligned_write##n(void*) { PT(); } \
 void __tsan_read##n##_pc(void*, void*) { PT(); } void __tsan_write##n##_pc(void*, void*) { PT(); } void __tsan_volatile_read##n(void*) { PT(); } void __tsan_volatile_write##n(void*) { PT(); } void __tsan_read_write##n(void*) { PT(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t) { PT(); }
void __tsan_write_range(void*, size_t) { PT(); }
void __tsan_vptr_update(void**, void*) { PT(); }
void __tsan_vptr_read(void**) { PT(); }
#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T* a, int) { PT(); return __atomic_load_n(a, 5); } \
 void __tsan_atomic##bits##_store(volatile T* a, T v, int) { PT(); __atomic_store_n(a, v, 5); } \
 T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { PT(); return __atomic_exchange_n(a, v, 5); } \
 T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { PT(); return __atomic_fetch_add(a, v, 5); } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { PT(); return __atomic_fetch_sub(a, v, 5); } \
 T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { PT(); return __atomic_fetch_and(a, v, 5); } \
 T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { PT(); return __atomic_fetch_or(a, v, 5); } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { PT(); return __atomic_fetch_xor(a, v, 5); } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { PT(); return __atomic_fetch_nand(a, v, 5); } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { PT(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { PT(); return __atomic_compare_exchange_n(a, c, v, 1, 5, 5); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { PT(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { PT(); }
void __tsan_atomic_signal_fence(int) {}
}
