// What code compiled with -fsanitize=thread calls at every memory access; here the accesses are
// scheduling points of vsched.h.  Compiled without instrumentation.
#ifndef VSCHED_H
#include "vsched.h"
#endif
#undef std
#define A vsched::Access();
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void*, unsigned long) { A }
void __tsan_write_range(void*, unsigned long) { A }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void*) { A } void __tsan_write##n(void*) { A } \
  void __tsan_unaligned_read##n(void*) { A } void __tsan_unaligned_write##n(void*) { A } \
  void __tsan_read##n##_pc(void*, void*) { A } void __tsan_write##n##_pc(void*, void*) { A } \
  void __tsan_volatile_read##n(void*) { A } void __tsan_volatile_write##n(void*) { A }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int) { return *p; } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) { *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { T o = *p; *p = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { T o = *p; if (o == e) *p = v; return o; }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
