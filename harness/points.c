// The functions that code compiled with -fsanitize=thread calls: each lets the scheduler choose, then does what it is for.
#include <stdint.h>
#include <stddef.h>
void vf_point(const volatile void *p);
#define T(n) __tsan_##n
void T(init)(void) {}
void T(func_entry)(void *p) { (void)p; }
void T(func_exit)(void) {}
void T(atomic_thread_fence)(int m) { (void)m; }
void T(atomic_signal_fence)(int m) { (void)m; }
void T(read_range)(void *p, size_t n) { (void)n; vf_point(p); }
void T(write_range)(void *p, size_t n) { (void)n; vf_point(p); }
void T(read1)(void *p) { vf_point(p); }
void T(read1_pc)(void *p, void *c) { (void)c; vf_point(p); }
void T(unaligned_read1)(void *p) { vf_point(p); }
void T(volatile_read1)(void *p) { vf_point(p); }
void T(unaligned_volatile_read1)(void *p) { vf_point(p); }
void T(read2)(void *p) { vf_point(p); }
void T(read2_pc)(void *p, void *c) { (void)c; vf_point(p); }
void T(unaligned_read2)(void *p) { vf_point(p); }
void T(volatile_read2)(void *p) { vf_point(p); }
void T(unaligned_volatile_read2)(void *p) { vf_point(p); }
void T(read4)(void *p) { vf_point(p); }
void T(read4_pc)(void *p, void *c) { (void)c; vf_point(p); }
void T(unaligned_read4)(void *p) { vf_point(p); }
void T(volatile_read4)(void *p) { vf_point(p); }
void T(unaligned_volatile_read4)(void *p) { vf_point(p); }
void T(read8)(void *p) { vf_point(p); }
void T(read8_pc)(void *p, void *c) { (void)c; vf_point(p); }
void T(unaligned_read8)(void *p) { vf_point(p); }
void T(volatile_read8)(void *p) { vf_point(p); }
void T(unaligned_volatile_read8)(void *p) { vf_point(p); }
void T(read16)(void *p) { vf_point(p); }
void T(read16_pc)(void *p, void *c) { (void)c; vf_point(p); }
void T(unaligned_read16)(void *p) { vf_point(p); }
void T(volatile_read16)(void *p) { vf_point(p); }
void T(unaligned_volatile_read16)(void *p) { vf_point(p); }
void T(write1)(void *p) { vf_point(p); }
void T(write1_pc)(void *p, void *c) { (void)c; vf_point(p); }
void T(unaligned_write1)(void *p) { vf_point(p); }
void T(volatile_write1)(void *p) { vf_point(p); }
void T(unaligned_volatile_write1)(void *p) { vf_point(p); }
void T(write2)(void *p) { vf_point(p); }
void T(write2_pc)(void *p, void *c) { (void)c; vf_point(p); }
void T(unaligned_write2)(void *p) { vf_point(p); }
void T(volatile_write2)(void *p) { vf_point(p); }
void T(unaligned_volatile_write2)(void *p) { vf_point(p); }
void T(write4)(void *p) { vf_point(p); }
void T(write4_pc)(void *p, void *c) { (void)c; vf_point(p); }
void T(unaligned_write4)(void *p) { vf_point(p); }
void T(volatile_write4)(void *p) { vf_point(p); }
void T(unaligned_volatile_write4)(void *p) { vf_point(p); }
void T(write8)(void *p) { vf_point(p); }
void T(write8_pc)(void *p, void *c) { (void)c; vf_point(p); }
void T(unaligned_write8)(void *p) { vf_point(p); }
void T(volatile_write8)(void *p) { vf_point(p); }
void T(unaligned_volatile_write8)(void *p) { vf_point(p); }
void T(write16)(void *p) { vf_point(p); }
void T(write16_pc)(void *p, void *c) { (void)c; vf_point(p); }
void T(unaligned_write16)(void *p) { vf_point(p); }
void T(volatile_write16)(void *p) { vf_point(p); }
void T(unaligned_volatile_write16)(void *p) { vf_point(p); }
uint8_t T(atomic8_load)(const volatile uint8_t *p, int m) { (void)m; vf_point(p); return __atomic_load_n(p, 5); }
void T(atomic8_store)(volatile uint8_t *p, uint8_t v, int m) { (void)m; vf_point(p); __atomic_store_n(p, v, 5); }
uint8_t T(atomic8_exchange)(volatile uint8_t *p, uint8_t v, int m) { (void)m; vf_point(p); return __atomic_exchange_n(p, v, 5); }
uint8_t T(atomic8_fetch_add)(volatile uint8_t *p, uint8_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_add(p, v, 5); }
uint8_t T(atomic8_fetch_sub)(volatile uint8_t *p, uint8_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_sub(p, v, 5); }
uint8_t T(atomic8_fetch_and)(volatile uint8_t *p, uint8_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_and(p, v, 5); }
uint8_t T(atomic8_fetch_or)(volatile uint8_t *p, uint8_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_or(p, v, 5); }
uint8_t T(atomic8_fetch_xor)(volatile uint8_t *p, uint8_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_xor(p, v, 5); }
uint8_t T(atomic8_fetch_nand)(volatile uint8_t *p, uint8_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_nand(p, v, 5); }
int T(atomic8_compare_exchange_strong)(volatile uint8_t *p, uint8_t *c, uint8_t v, int m, int n) { (void)m; (void)n; vf_point(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
int T(atomic8_compare_exchange_weak)(volatile uint8_t *p, uint8_t *c, uint8_t v, int m, int n) { (void)m; (void)n; vf_point(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
uint8_t T(atomic8_compare_exchange_val)(volatile uint8_t *p, uint8_t c, uint8_t v, int m, int n) { (void)m; (void)n; vf_point(p); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
uint16_t T(atomic16_load)(const volatile uint16_t *p, int m) { (void)m; vf_point(p); return __atomic_load_n(p, 5); }
void T(atomic16_store)(volatile uint16_t *p, uint16_t v, int m) { (void)m; vf_point(p); __atomic_store_n(p, v, 5); }
uint16_t T(atomic16_exchange)(volatile uint16_t *p, uint16_t v, int m) { (void)m; vf_point(p); return __atomic_exchange_n(p, v, 5); }
uint16_t T(atomic16_fetch_add)(volatile uint16_t *p, uint16_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_add(p, v, 5); }
uint16_t T(atomic16_fetch_sub)(volatile uint16_t *p, uint16_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_sub(p, v, 5); }
uint16_t T(atomic16_fetch_and)(volatile uint16_t *p, uint16_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_and(p, v, 5); }
uint16_t T(atomic16_fetch_or)(volatile uint16_t *p, uint16_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_or(p, v, 5); }
uint16_t T(atomic16_fetch_xor)(volatile uint16_t *p, uint16_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_xor(p, v, 5); }
uint16_t T(atomic16_fetch_nand)(volatile uint16_t *p, uint16_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_nand(p, v, 5); }
int T(atomic16_compare_exchange_strong)(volatile uint16_t *p, uint16_t *c, uint16_t v, int m, int n) { (void)m; (void)n; vf_point(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
int T(atomic16_compare_exchange_weak)(volatile uint16_t *p, uint16_t *c, uint16_t v, int m, int n) { (void)m; (void)n; vf_point(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
uint16_t T(atomic16_compare_exchange_val)(volatile uint16_t *p, uint16_t c, uint16_t v, int m, int n) { (void)m; (void)n; vf_point(p); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
uint32_t T(atomic32_load)(const volatile uint32_t *p, int m) { (void)m; vf_point(p); return __atomic_load_n(p, 5); }
void T(atomic32_store)(volatile uint32_t *p, uint32_t v, int m) { (void)m; vf_point(p); __atomic_store_n(p, v, 5); }
uint32_t T(atomic32_exchange)(volatile uint32_t *p, uint32_t v, int m) { (void)m; vf_point(p); return __atomic_exchange_n(p, v, 5); }
uint32_t T(atomic32_fetch_add)(volatile uint32_t *p, uint32_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_add(p, v, 5); }
uint32_t T(atomic32_fetch_sub)(volatile uint32_t *p, uint32_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_sub(p, v, 5); }
uint32_t T(atomic32_fetch_and)(volatile uint32_t *p, uint32_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_and(p, v, 5); }
uint32_t T(atomic32_fetch_or)(volatile uint32_t *p, uint32_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_or(p, v, 5); }
uint32_t T(atomic32_fetch_xor)(volatile uint32_t *p, uint32_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_xor(p, v, 5); }
uint32_t T(atomic32_fetch_nand)(volatile uint32_t *p, uint32_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_nand(p, v, 5); }
int T(atomic32_compare_exchange_strong)(volatile uint32_t *p, uint32_t *c, uint32_t v, int m, int n) { (void)m; (void)n; vf_point(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
int T(atomic32_compare_exchange_weak)(volatile uint32_t *p, uint32_t *c, uint32_t v, int m, int n) { (void)m; (void)n; vf_point(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
uint32_t T(atomic32_compare_exchange_val)(volatile uint32_t *p, uint32_t c, uint32_t v, int m, int n) { (void)m; (void)n; vf_point(p); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
uint64_t T(atomic64_load)(const volatile uint64_t *p, int m) { (void)m; vf_point(p); return __atomic_load_n(p, 5); }
void T(atomic64_store)(volatile uint64_t *p, uint64_t v, int m) { (void)m; vf_point(p); __atomic_store_n(p, v, 5); }
uint64_t T(atomic64_exchange)(volatile uint64_t *p, uint64_t v, int m) { (void)m; vf_point(p); return __atomic_exchange_n(p, v, 5); }
uint64_t T(atomic64_fetch_add)(volatile uint64_t *p, uint64_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_add(p, v, 5); }
uint64_t T(atomic64_fetch_sub)(volatile uint64_t *p, uint64_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_sub(p, v, 5); }
uint64_t T(atomic64_fetch_and)(volatile uint64_t *p, uint64_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_and(p, v, 5); }
uint64_t T(atomic64_fetch_or)(volatile uint64_t *p, uint64_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_or(p, v, 5); }
uint64_t T(atomic64_fetch_xor)(volatile uint64_t *p, uint64_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_xor(p, v, 5); }
uint64_t T(atomic64_fetch_nand)(volatile uint64_t *p, uint64_t v, int m) { (void)m; vf_point(p); return __atomic_fetch_nand(p, v, 5); }
int T(atomic64_compare_exchange_strong)(volatile uint64_t *p, uint64_t *c, uint64_t v, int m, int n) { (void)m; (void)n; vf_point(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
int T(atomic64_compare_exchange_weak)(volatile uint64_t *p, uint64_t *c, uint64_t v, int m, int n) { (void)m; (void)n; vf_point(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
uint64_t T(atomic64_compare_exchange_val)(volatile uint64_t *p, uint64_t c, uint64_t v, int m, int n) { (void)m; (void)n; vf_point(p); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
