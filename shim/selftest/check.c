#include "check.h"
jmp_buf *mc_cur;
void mc_fail(const char *f, int l, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  printf("    %s:%d: ", f, l);
  vprintf(fmt, ap);
  printf("\n");
  va_end(ap);
  longjmp(*mc_cur, 1);
}
void mc_add(TCase *c, const char *n, void (*fn)(void)) { c->t[c->n++] = (mc_test){n, fn}; }
TCase *tcase_create(const char *n) { TCase *c = calloc(1, sizeof(*c)); c->name = n; return c; }
void tcase_add_checked_fixture(TCase *c, void (*su)(void), void (*td)(void)) { c->su = su; c->td = td; }
Suite *suite_create(const char *n) { Suite *s = calloc(1, sizeof(*s)); s->name = n; return s; }
void suite_add_tcase(Suite *s, TCase *c) { s->c[s->n++] = c; }
SRunner *srunner_create(Suite *s) { SRunner *r = calloc(1, sizeof(*r)); if (s) r->s[r->n++] = s; return r; }
void srunner_add_suite(SRunner *r, Suite *s) { r->s[r->n++] = s; }
void srunner_run_all(SRunner *r, int mode) {
  (void)mode;
  int tot = 0;
  for (int i = 0; i < r->n; i++)
    for (int j = 0; j < r->s[i]->n; j++) {
      TCase *c = r->s[i]->c[j];
      for (int k = 0; k < c->n; k++) {
        jmp_buf jb;
        mc_cur = &jb;
        tot++;
        if (getenv("MC_V")) { printf("RUN %s\n", c->t[k].name); fflush(stdout); }
        if (setjmp(jb) == 0) {
          if (c->su) c->su();
          c->t[k].fn();
          if (c->td) c->td();
        } else {
          r->failed++;
          printf("FAIL %s/%s/%s\n", r->s[i]->name, c->name, c->t[k].name);
        }
        fflush(stdout);
      }
    }
  printf("%d tests, %d failed\n", tot, r->failed);
}
