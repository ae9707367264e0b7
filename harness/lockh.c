/* Runs the database lock of the real code under controlled schedules: the threads are coroutines, every memory
   access of Db/dblock.c (compiled with -fsanitize=thread, whose callbacks are defined here) and every wait is a
   point where the scheduler may switch, and the futex and the clock are simulated.  Prints one trace per line.
   lockh first count fibers-max : schedules first..first+count-1 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <ucontext.h>
#include <time.h>
#include "Db/dballoc.h"
#ifndef USE_REASONER
#define USE_REASONER
#endif
#include "Db/dbapi.h"
#include "Db/dbmem.h"
#include "Db/dblock.h"
#define MAXF 6
#define STACK 262144
enum { READY, WAITING, DONE };
static struct fib { ucontext_t c; char *stack; int st, want, early; volatile void *addr; int rc, err, timed; long prio; int nops; char ops[300]; } F[MAXF];
static ucontext_t sched;
static int cur = -1, nf, mode;
static void *db;
static unsigned long rs;
static long steps, limit, npts, pts[8], pswitch, ptmo, pintr, pspur;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ul + 1442695040888963407ul; return (unsigned)((rs >> 33) % n); }
static char buf[1 << 20]; static int bl; static int nev;
static void ev(const char *op, int t, const char *k) { bl += sprintf(buf + bl, "%s{\"op\":\"%s\",\"t\":%d,\"k\":\"%s\"}", nev++ ? "," : "", op, t, k); if (bl > 900000) { printf("{\"ev\":[],\"toolong\":1}\n"); exit(3); } }
static void away(void) { int me = cur; swapcontext(&F[me].c, &sched); }
static void point(void) {
  if (cur < 0) return;
  steps++;
  if (steps > limit) { away(); return; }
  if (mode == 0) { if ((long)rnd(1000) < pswitch) away(); }
  else for (int i = 0; i < npts; i++) if (pts[i] == steps) { F[cur].prio = -1 - i; away(); }
}
/* ---- what the instrumented code calls */
#define RW(n) void __tsan_read##n(void *a) { point(); } void __tsan_write##n(void *a) { point(); } \
  void __tsan_unaligned_read##n(void *a) { point(); } void __tsan_unaligned_write##n(void *a) { point(); } \
  void __tsan_volatile_read##n(void *a) { point(); } void __tsan_volatile_write##n(void *a) { point(); } void __tsan_read_write##n(void *a) { point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, long n) { point(); } void __tsan_write_range(void *a, long n) { point(); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {} void __tsan_vptr_update(void **a, void *b) {}
void __tsan_atomic_thread_fence(int o) { point(); } void __tsan_atomic_signal_fence(int o) {}
#define AT(b, T) \
 T __tsan_atomic##b##_load(const volatile T *a, int o) { point(); return *a; } \
 void __tsan_atomic##b##_store(volatile T *a, T v, int o) { point(); *a = v; } \
 T __tsan_atomic##b##_exchange(volatile T *a, T v, int o) { point(); T x = *a; *a = v; return x; } \
 T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int o) { point(); T x = *a; *a = x + v; return x; } \
 T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int o) { point(); T x = *a; *a = x - v; return x; } \
 T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int o) { point(); T x = *a; *a = x & v; return x; } \
 T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int o) { point(); T x = *a; *a = x | v; return x; } \
 T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int o) { point(); T x = *a; *a = x ^ v; return x; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int o, int p) { point(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int o, int p) { return __tsan_atomic##b##_compare_exchange_strong(a, e, v, o, p); } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int o, int p) { point(); T x = *a; if (x == e) *a = v; return x; }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
/* ---- what it calls of the system */
static void sleepy(void) { if (cur >= 0) { F[cur].prio = -20 - (steps & 0xffffff); away(); } }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { sleepy(); return 0; }
int __wrap_usleep(unsigned a) { sleepy(); return 0; }
int __wrap_sched_yield(void) { sleepy(); return 0; }
int __wrap_clock_gettime(int c, struct timespec *t) { t->tv_sec = 1000 + steps / 1000000000; t->tv_nsec = steps % 1000000000; return 0; }
long __wrap_syscall(long nr, ...) {
  va_list l; va_start(l, nr); volatile int *a = va_arg(l, volatile int *); int op = va_arg(l, int) & 127, val = va_arg(l, int); struct timespec *ts = va_arg(l, struct timespec *); va_end(l);
  if (nr != 202) { errno = ENOSYS; return -1; }
  point();
  if (op == 0 || op == 9) {
    if (*a != val) { errno = EAGAIN; return -1; }
    F[cur].st = WAITING; F[cur].addr = a; F[cur].timed = ts != NULL;
    if (ts) { struct timespec n = { 0, 0 }; if (op == 9) __wrap_clock_gettime(1, &n); F[cur].early = (ts->tv_sec - n.tv_sec) * 1000.0 + (ts->tv_nsec - n.tv_nsec) / 1e6 < 0.9 * F[cur].want; }
    ev("wait", cur, "");
    away();
    if (F[cur].rc) errno = F[cur].err;
    return F[cur].rc;
  }
  if (op == 1 || op == 10) { int n = 0; for (int k = 0, j = rnd(nf); k < nf && n < val; k++, j = (j + 1) % nf) if (F[j].st == WAITING && F[j].addr == a) { F[j].st = READY; F[j].rc = 0; n++; } return n; }
  errno = ENOSYS; return -1;
}
static void body(int me) {
  for (int i = 0; i < F[me].nops; i++) {
    char k = F[me].ops[i], ks[2] = { k, 0 };
    for (int j = rnd(4); j > 0; j--) point();
    ev("call", me, ks);
    F[me].want = rnd(3) ? 2000 : (int[]){ 1, 500, 1500, 3007 }[rnd(4)];   /* 2000 is the default */
    gint l = F[me].want == 2000 ? (k == 'w' ? wg_start_write(db) : wg_start_read(db)) : k == 'w' ? db_wlock(db, F[me].want) : db_rlock(db, F[me].want);
    if (!l) { ev("none", me, ks); continue; }
    ev("got", me, ks);
    for (int j = rnd(mode ? 40 : 8); j > 0; j--) point();
    ev("rel", me, ks);
    gint rc = k == 'w' ? wg_end_write(db, l) : wg_end_read(db, l);
    ev(rc ? "reld" : "relfail", me, ks);
  }
  F[me].st = DONE; away();
}
static void run(long seed, int maxf) {
  rs = seed * 7919 + 13; for (int i = 0; i < 5; i++) rnd(2);
  bl = nev = 0; steps = 0; limit = 400000;
  static int dirty = 1;   /* mostly, the lock goes on from where the last schedule left it */
  if ((dirty || seed % 100 == 0) && wg_init_locks(db)) { printf("{\"ev\":[],\"init\":1}\n"); exit(3); }
  dirty = 1;
  nf = 2 + rnd(maxf - 1); mode = rnd(2); pswitch = (long[]){ 10, 50, 200, 500 }[rnd(4)];
  npts = 1 + rnd(6); for (int i = 0; i < npts; i++) pts[i] = 1 + rnd((long[]){ 100, 400, 1500 }[rnd(3)]);
  ptmo = (long[]){ 0, 0, 20, 150 }[rnd(4)]; pintr = rnd(3) ? 0 : (long[]){ 10, 60 }[rnd(2)]; 
  int lng = rnd(40) == 0, wr = (int[]){ 10, 50, 50, 90 }[rnd(4)];
  for (int i = 0; i < nf; i++) {
    F[i].st = READY; F[i].prio = 100 + rnd(1000); F[i].nops = lng ? 10 + rnd(40) : 1 + rnd(4);
    for (int j = 0; j < F[i].nops; j++) F[i].ops[j] = (int)rnd(100) < wr ? 'w' : 'r';
    if (!F[i].stack) F[i].stack = malloc(STACK);
    getcontext(&F[i].c); F[i].c.uc_stack.ss_sp = F[i].stack; F[i].c.uc_stack.ss_size = STACK; F[i].c.uc_link = &sched;
    makecontext(&F[i].c, (void (*)(void))body, 1, i);
  }
  for (int rounds = 0;; rounds++) {
    int r[MAXF], n = 0, w[MAXF], m = 0, done = 0;
    for (int i = 0; i < nf; i++) { if (F[i].st == READY) r[n++] = i; else if (F[i].st == WAITING) w[m++] = i; else done++; }
    if (done == nf) { ev("end", 0, ""); dirty = 0; break; }
    if (!n && m) { /* nobody can go on: let everyone know, then time passes */
      ev("stuck", 0, "");
      int any = 0; for (int i = 0; i < m; i++) any |= F[w[i]].timed;
      if (!any) break;
      int j; do j = w[rnd(m)]; while (!F[j].timed);
      F[j].st = READY; F[j].rc = -1; F[j].err = ETIMEDOUT; ev("tmo", j, F[j].early ? "early" : ""); continue;
    }
    if (m && (long)rnd(1000) < ptmo) { int j = w[rnd(m)]; if (F[j].timed) { F[j].st = READY; F[j].rc = -1; F[j].err = ETIMEDOUT; ev("tmo", j, F[j].early ? "early" : ""); continue; } }
    if (m && (long)rnd(1000) < pintr) { int j = w[rnd(m)]; F[j].st = READY; F[j].rc = rnd(2) ? 0 : -1; F[j].err = EINTR; continue; }
    if (steps > limit * 3) { ev("hang", 0, ""); break; }
    int pick = r[0];
    if (mode == 0 || steps > limit) pick = r[rnd(n)];
    else for (int i = 1; i < n; i++) if (F[r[i]].prio > F[pick].prio) pick = r[i];
    cur = pick; swapcontext(&sched, &F[pick].c); cur = -1;
  }
  printf("{\"seed\":%ld,\"ev\":[%.*s]}\n", seed, bl, buf);
}
int main(int argc, char **argv) {
  db = wg_attach_local_database(200000); if (!db) return 3;
  for (long s = atol(argv[1]), e = s + atol(argv[2]); s < e; s++) run(s, argc > 3 ? atoi(argv[3]) : 4);
  return 0;
}
