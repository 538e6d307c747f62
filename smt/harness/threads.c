// Native counterpart of the executor's threads: real threads of which one runs at a time, passing control exactly as the
// executor does (see symex.cpp), so that a schedule found there can be repeated here. The program's IR is instrumented with a
// call to sym_point before every atomic operation and with sym_yield for the spin hint.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#define THREADS
#include "shim.c"

enum { T_RUN, T_FUTEX, T_JOIN, T_DONE };
#define MAXTH 8
struct dtor { void (*f)(void *); void *a; };
static struct thread {
  int st, timed, timed_out, turn;
  uintptr_t wait;
  uint64_t until, order;
  void *(*f)(void *);
  void *a;
  int nd;
  struct dtor d[64];
  pthread_t id;
} th[MAXTH];
static int nth = 1, cur = 0;
static uint64_t points, waits, budget, preempt;
static __thread int self;

static long fx(int *p, int op, int v) { return syscall(SYS_futex + 100000, p, op, v); }
static void await_turn(void) {
  while (!__atomic_load_n(&th[self].turn, __ATOMIC_ACQUIRE)) fx(&th[self].turn, FUTEX_WAIT, 0);
  __atomic_store_n(&th[self].turn, 0, __ATOMIC_RELAXED);
}
static void pass(int k) {
  char b[64];
  mix('s', b, (size_t)snprintf(b, sizeof b, "%d@%llu", k, (unsigned long long)points));
  cur = k;
  __atomic_store_n(&th[k].turn, 1, __ATOMIC_RELEASE);
  fx(&th[k].turn, FUTEX_WAKE, 1);
}
static void switch_to(int k) {
  if (k == self) return;
  pass(k);
  await_turn();
}
static int other(void) { for (int i = 0; i < nth; i++) if (i != self && th[i].st == T_RUN) return 1; return 0; }
static int pick(void) {
  int r[MAXTH], n = 0;
  for (int i = 0; i < nth; i++) if (i != self && th[i].st == T_RUN) r[n++] = i;
  if (n <= 1) return n ? r[0] : -1;
  uint64_t v = next("thread", 6);
  return r[v < (uint64_t)n ? v : 0];
}
static int successor(void) {
  int k = pick();
  if (k < 0) {
    for (int i = 0; i < nth; i++)
      if (th[i].st == T_FUTEX && th[i].timed && (k < 0 || th[i].until < th[k].until)) k = i;
    if (k < 0) { say("BLOCKED", "", 0); abort(); }
    th[k].st = T_RUN; th[k].timed = 0; th[k].timed_out = 1;
  }
  return k;
}
void sym_threads(uint64_t n) { budget = n; if (n) preempt = next("preempt", 7); }
void sym_point(void) {
  if (nth < 2 || !budget || !other()) return;
  if (++points != preempt) return;
  budget--;
  int k = pick();
  if (budget) preempt = next("preempt", 7);
  switch_to(k);
}
void sym_yield(void) {
  if (nth < 2 || !other()) return;
  int k = self;
  do k = (k + 1) % nth; while (th[k].st != T_RUN);
  switch_to(k);
}
int sched_yield(void) { sym_yield(); return 0; }
static void *enter(void *p) {
  self = (int)(intptr_t)p;
  struct thread *t = &th[self];
  await_turn();
  t->f(t->a);
  while (t->nd) { struct dtor d = t->d[--t->nd]; d.f(d.a); }
  t->st = T_DONE;
  for (int i = 0; i < nth; i++) if (th[i].st == T_JOIN && th[i].wait == (uintptr_t)self) th[i].st = T_RUN;
  pass(successor());
  for (;;) pause(); // its memory stays
  return 0;
}
int pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*f)(void *), void *a) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  (void)at;
  if (!real) *(void **)&real = dlsym(RTLD_NEXT, "pthread_create");
  if (nth >= MAXTH) return EAGAIN;
  int k = nth++;
  th[k].f = f; th[k].a = a; th[k].st = T_RUN;
  int r = real(&th[k].id, 0, enter, (void *)(intptr_t)k);
  *id = (pthread_t)k;
  return r;
}
int pthread_join(pthread_t id, void **r) {
  int k = (int)id;
  (void)r;
  if (th[k].st != T_DONE) {
    th[self].st = T_JOIN; th[self].wait = (uintptr_t)k;
    switch_to(successor());
  }
  return 0;
}
int pthread_detach(pthread_t id) { (void)id; return 0; }
int pthread_setname_np(pthread_t id, const char *n) { (void)id; (void)n; return 0; }
int __cxa_thread_atexit_impl(void (*f)(void *), void *a, void *h) {
  (void)h;
  if (self) { struct thread *t = &th[self]; if (t->nd == 64) abort(); t->d[t->nd++] = (struct dtor){f, a}; }
  return 0;
}
static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
long syscall(long n, ...) {
  va_list ap;
  long v[6];
  va_start(ap, n);
  for (int i = 0; i < 6; i++) v[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex) {
    sym_point();
    int op = v[1] & 127;
    uint32_t *p = (uint32_t *)v[0];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*p != (uint32_t)v[2]) { errno = EAGAIN; return -1; }
      struct timespec *to = (struct timespec *)v[3];
      struct thread *t = &th[self];
      t->st = T_FUTEX; t->wait = (uintptr_t)p; t->timed = 0; t->timed_out = 0; t->order = ++waits;
      if (to) { t->timed = 1; t->until = (uint64_t)to->tv_sec * 1000000000u + (uint64_t)to->tv_nsec; }
      switch_to(successor());
      if (t->timed_out) { t->timed_out = 0; errno = ETIMEDOUT; return -1; }
      return 0;
    }
    uint32_t k = 0;
    while (k < (uint32_t)v[2]) {
      int w = -1;
      for (int i = 0; i < nth; i++) if (th[i].st == T_FUTEX && th[i].wait == (uintptr_t)p && (w < 0 || th[i].order < th[w].order)) w = i;
      if (w < 0) break;
      th[w].st = T_RUN; th[w].timed = 0; k++;
    }
    return k;
  }
  if (n == SYS_futex + 100000) n = SYS_futex;
  long r = raw(n, v[0], v[1], v[2], v[3], v[4], v[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
int main(int n, char **a) {
  void (*f)(void);
  *(void **)&f = n > 1 ? dlsym(RTLD_DEFAULT, a[1]) : 0;
  if (!f) { fprintf(stderr, "no such harness\n"); return 2; }
  f();
  return 0;
}
