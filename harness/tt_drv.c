// Time truth under a chosen schedule.  time_truth.c is compiled with the
// instrumentation of -fsanitize=thread and linked with the functions below
// instead of the sanitizer's: every access it makes to the shared instance, of
// whatever kind, is a point where another thread may be chosen to go on.
// stdin, one scenario per line: tokens  <thread>  or
//   <thread>:u,<source>,<week>,<ms>,<kind>   report a time (kind: 0 plain, 1 negative, 2 not a number, 3 no week, 4 too large)
//   <thread>:s,<type>,<health>,<week>,<second>   report a message (type: 0 GPS ephemeris, 1 Galileo, 2 Beidou, 3 observations)
//   <thread>:g                               read
#include <gnss-converters/time_truth.h>
#include <math.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#define N 8
static time_truth_t instance;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
enum { IDLE, PARKED, GO, RUNNING, QUIT };
static int state[N];
static char *todo[N];
static __thread int self = -1;
static void park(int s) {           // mu held
  state[self] = s;
  pthread_cond_broadcast(&cv);
  while (state[self] != GO && state[self] != QUIT) pthread_cond_wait(&cv, &mu);
  if (state[self] == GO) state[self] = RUNNING;
}
void vf_point(const volatile void *p) {
  if (self < 0) return;
  const char *a = (const char *)p, *b = (const char *)&instance;
  if (a < b || a >= b + sizeof(instance)) return;
  pthread_mutex_lock(&mu);
  park(PARKED);
  pthread_mutex_unlock(&mu);
}
static void op(char *o) {
  char buf[200], ans[80];
  int f[4] = {0, 0, 0, 0};
  sscanf(o + 1, ",%d,%d,%d,%d", &f[0], &f[1], &f[2], &f[3]);
  int src = f[0], wn = f[1], ms = f[2], ok = f[3] == 0;
  sbp_msg_t m;
  memset(&m, 0, sizeof(m));
  if (o[0] == 's') {
    src = f[0] == 0 && f[1] == 0 ? 0 : 9; wn = f[2]; ms = f[3] * 1000; ok = 1;
    sbp_gps_time_sec_t toe = {.wn = (u16)wn, .tow = (u32)f[3]};
    if (f[0] == 0) { m.ephemeris_gps.common.toe = toe; m.ephemeris_gps.common.health_bits = (u8)f[1]; }
    if (f[0] == 1) { m.ephemeris_gal.common.toe = toe; m.ephemeris_gal.common.health_bits = (u8)f[1]; }
    if (f[0] == 2) { m.ephemeris_bds.common.toe = toe; m.ephemeris_bds.common.health_bits = (u8)f[1]; }
  }
  if (o[0] == 'g') snprintf(buf, sizeof buf, "{\"op\":\"get\"}");
  else snprintf(buf, sizeof buf, "{\"op\":\"update\",\"src\":%d,\"wn\":%d,\"ms\":%d,\"ok\":%s}", src, wn, ms, ok ? "true" : "false");
  pthread_mutex_lock(&mu);
  printf("{\"e\":\"Call\",\"t\":%d,\"o\":%s}\n", self, buf);
  pthread_mutex_unlock(&mu);
  if (o[0] == 'g') {
    enum time_truth_state s = 77; gps_time_t t = {.wn = 1, .tow = 1};
    time_truth_get(&instance, &s, &t);
    if (s == TIME_TRUTH_UNKNOWN) strcpy(ans, gps_time_valid(&t) ? "[-8]" : "[]");
    else if (s == TIME_TRUTH_SOLVED) snprintf(ans, sizeof ans, "[%d,%ld]", t.wn, lrint(t.tow * 1000));
    else strcpy(ans, "[-7]");
  } else {
    int r;
    if (o[0] == 'u') {
      gps_time_t t = {.wn = (s16)wn, .tow = ms / 1000.0};
      if (f[3] == 1) t.tow = -1;
      if (f[3] == 2) t.tow = NAN;
      if (f[3] == 3) t.wn = WN_UNKNOWN;
      if (f[3] == 4) t.tow = 700000;
      r = time_truth_update(&instance, (enum time_truth_source)src, t);
    } else {
      static const sbp_msg_type_t ty[] = {SbpMsgEphemerisGps, SbpMsgEphemerisGal, SbpMsgEphemerisBds, SbpMsgObs};
      r = time_truth_update_from_sbp(&instance, ty[f[0]], &m);
    }
    snprintf(ans, sizeof ans, "[%d]", r);
  }
  pthread_mutex_lock(&mu);
  printf("{\"e\":\"Ret\",\"t\":%d,\"a\":%s}\n", self, ans);
  pthread_mutex_unlock(&mu);
}
static void *thread(void *a) {
  self = (int)(long)a;
  pthread_mutex_lock(&mu);
  for (;;) {
    park(IDLE);
    if (state[self] == QUIT) break;
    pthread_mutex_unlock(&mu);
    op(todo[self]);
    pthread_mutex_lock(&mu);
  }
  pthread_mutex_unlock(&mu);
  return NULL;
}
// let thread t go on until its next point; mu held
static void step(int t) {
  if (state[t] == PARKED || state[t] == IDLE) { state[t] = GO; pthread_cond_broadcast(&cv); }
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  ts.tv_nsec += 20000000;
  if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
  // a thread that waits for a lock another one holds stays RUNNING
  while (state[t] == GO || state[t] == RUNNING)
    if (pthread_cond_timedwait(&cv, &mu, &ts)) break;
}
static void one(char *line) {
  pthread_t th[N];
  time_truth_init(&instance);
  puts("{\"e\":\"Begin\"}");
  for (long i = 0; i < N; i++) { state[i] = RUNNING; pthread_create(&th[i], NULL, thread, (void *)i); }
  pthread_mutex_lock(&mu);
  for (int i = 0; i < N; i++) while (state[i] != IDLE) pthread_cond_wait(&cv, &mu);
  int rounds = 0;
  for (char *p = strtok(line, " \n"); p; p = strtok(NULL, " \n")) {
    int t = p[0] - '0';
    if (t < 0 || t >= N) _Exit(71);
    if (p[1] == ':') {
      for (rounds = 0; state[t] != IDLE; rounds++) {
        for (int i = 0; i < N; i++) if (state[i] != IDLE) step(i);
        if (rounds > 1000) _Exit(97);          // livelock
      }
      todo[t] = p + 2;
      step(t);
    } else if (state[t] != IDLE) step(t);
  }
  for (rounds = 0;; rounds++) {
    int busy = 0;
    for (int i = 0; i < N; i++) if (state[i] != IDLE) { busy = 1; step(i); }
    if (!busy) break;
    if (rounds > 1000) _Exit(97);
  }
  for (int i = 0; i < N; i++) state[i] = QUIT;
  pthread_cond_broadcast(&cv);
  pthread_mutex_unlock(&mu);
  for (int i = 0; i < N; i++) pthread_join(th[i], NULL);
  enum time_truth_state s = 77; gps_time_t t = {.wn = 1, .tow = 1};
  time_truth_get(&instance, &s, &t);
  if (s == TIME_TRUTH_UNKNOWN) puts("{\"e\":\"Final\",\"a\":[]}");
  else printf("{\"e\":\"Final\",\"a\":[%d,%ld]}\n", t.wn, lrint(t.tow * 1000));
  puts("{\"e\":\"Done\"}");
}
int main(void) {
  char *line = NULL; size_t cap = 0;
  setvbuf(stdin, NULL, _IONBF, 0);
  while (getline(&line, &cap, stdin) > 0) {
    if (strlen(line) < 2) continue;
    fflush(stdout);
    pid_t p = fork();
    if (!p) { alarm(30); one(line); fflush(stdout); _Exit(0); }
    int st;
    waitpid(p, &st, 0);
    if (st) return WIFEXITED(st) ? WEXITSTATUS(st) : 98;
  }
  return 0;
}
