/* Minimal stand-in for libcheck, used only to run the repository's own test
 * sources against the libsbp / libswiftnav stand-ins (a fidelity check of the
 * stand-ins, not part of any property check). */
#ifndef MINI_CHECK_H
#define MINI_CHECK_H
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct { const char *name; void (*fn)(void); } mc_test;
typedef struct TCase { const char *name; mc_test t[256]; int n; void (*su)(void); void (*td)(void); } TCase;
typedef struct Suite { const char *name; TCase *c[64]; int n; } Suite;
typedef struct SRunner { Suite *s[32]; int n, failed; } SRunner;
enum { CK_NOFORK, CK_NORMAL, CK_FORK, CK_VERBOSE };
static jmp_buf mc_jb __attribute__((unused));
extern jmp_buf *mc_cur;
void mc_fail(const char *f, int l, const char *fmt, ...);
#define START_TEST(n) static void n##_fn(void)
#define END_TEST static int mc_dummy_##__LINE__ __attribute__((unused));
#undef END_TEST
#define END_TEST
#define ck_assert(e) do { if (!(e)) mc_fail(__FILE__, __LINE__, "%s", #e); } while (0)
#define ck_assert_msg(e, ...) do { if (!(e)) mc_fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)
#define MC_I(a, op, b) do { intmax_t x_ = (a), y_ = (b); if (!(x_ op y_)) mc_fail(__FILE__, __LINE__, "%s %s %s (%jd, %jd)", #a, #op, #b, x_, y_); } while (0)
#define MC_U(a, op, b) do { uintmax_t x_ = (a), y_ = (b); if (!(x_ op y_)) mc_fail(__FILE__, __LINE__, "%s %s %s (%ju, %ju)", #a, #op, #b, x_, y_); } while (0)
#define ck_assert_int_eq(a, b) MC_I(a, ==, b)
#define ck_assert_int_ge(a, b) MC_I(a, >=, b)
#define ck_assert_int_le(a, b) MC_I(a, <=, b)
#define ck_assert_int_lt(a, b) MC_I(a, <, b)
#define ck_assert_uint_eq(a, b) MC_U(a, ==, b)
#define ck_assert_uint_ge(a, b) MC_U(a, >=, b)
#define ck_assert_uint_gt(a, b) MC_U(a, >, b)
#define ck_assert_uint_lt(a, b) MC_U(a, <, b)
#define ck_assert_ptr_ne(a, b) ck_assert((const void *)(a) != (const void *)(b))
#define ck_assert_str_eq(a, b) ck_assert_msg(strcmp(a, b) == 0, "'%s' != '%s'", a, b)
#define ck_assert_double_eq(a, b) ck_assert_msg((a) == (b), "%.17g != %.17g", (double)(a), (double)(b))
#define ck_assert_double_eq_tol(a, b, t) ck_assert_msg(fabs((double)(a) - (double)(b)) < (t), "%s: %.17g !~ %.17g", #a, (double)(a), (double)(b))
#define ck_assert_double_ge_tol(a, b, t) ck_assert((a) > (b) - (t))
#define ck_assert_double_le_tol(a, b, t) ck_assert((a) < (b) + (t))
#define tcase_add_test(c, f) mc_add(c, #f, f##_fn)
void mc_add(TCase *c, const char *name, void (*fn)(void));
TCase *tcase_create(const char *n);
void tcase_add_checked_fixture(TCase *c, void (*su)(void), void (*td)(void));
#define tcase_set_timeout(c, t)
Suite *suite_create(const char *n);
void suite_add_tcase(Suite *s, TCase *c);
SRunner *srunner_create(Suite *s);
void srunner_add_suite(SRunner *r, Suite *s);
#define srunner_set_fork_status(r, x)
#define srunner_set_xml(r, x)
void srunner_run_all(SRunner *r, int mode);
#define srunner_ntests_failed(r) ((r)->failed)
#define srunner_free(r)
#endif
