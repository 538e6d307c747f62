// Native counterparts of the symbolic primitives: values come from the file named by SYM_REPLAY.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

static FILE *in;
static int opened;
static uint64_t hash = 14695981039346656037ull, len;
static void mix(char kind, const char *l, size_t n) {
  len++;
  hash = (hash ^ (uint8_t)kind) * 1099511628211ull;
  for (size_t i = 0; i < n; i++) hash = (hash ^ (uint8_t)l[i]) * 1099511628211ull;
}
static void say(const char *what, const char *l, size_t n) {
  printf("%s %.*s\n", what, (int)n, l);
  fflush(stdout);
}
static uint64_t next(const char *n, size_t l) {
  char name[512];
  unsigned long long v;
  if (!opened) {
    opened = 1;
    const char *p = getenv("SYM_REPLAY");
    if (p) in = fopen(p, "r");
  }
  while (in && fgets(name, sizeof name, in)) {
    char *e = name + strcspn(name, "\n");
    *e = 0;
    if (!strncmp(name, "in ", 3)) {
      while (e > name + 3 && e[-1] != ' ') e--;
      if (e == name + 3) break;
      v = strtoull(e, 0, 10);
      e--;
      if ((size_t)(e - name - 3) != l || memcmp(name + 3, n, l)) { say("MISMATCH", n, l); _exit(79); }
      return v;
    }
    if (!strncmp(name, "backtrace", 9) || !strncmp(name, "trace", 5)) break;
  }
  if (in) { fclose(in); in = 0; }
  return 0;
}
uint64_t sym_u64(const char *n, size_t l) { return next(n, l); }
uint64_t sym_choose(uint64_t k, const char *n, size_t l) { uint64_t v = next(n, l); return k && v >= k ? k - 1 : v; }
void sym_bytes(uint8_t *p, size_t k, const char *n, size_t l) {
  for (size_t i = 0; i < k; i++) {
    char b[256];
    int m = snprintf(b, sizeof b, "%.*s.%zu", (int)l, n, i);
    p[i] = (uint8_t)next(b, (size_t)m);
  }
}
void sym_assume(_Bool b) { if (!b) { say("ASSUME", "", 0); _exit(78); } }
void sym_check(_Bool b, const char *l, size_t n) {
  mix('c', l, n);
  if (!b) { say("VIOLATED", l, n); _exit(77); }
}
void sym_reach(const char *l, size_t n) { mix('r', l, n); }
void sym_block_ok(_Bool b) { (void)b; }
void sym_note(const char *l, size_t n) { if (getenv("SYM_NOTES")) say("NOTE", l, n); }
#ifndef THREADS
void sym_threads(uint64_t n) { (void)n; }
#endif
void sym_done(void) {
  printf("TRACE %llu %llu\n", (unsigned long long)hash, (unsigned long long)len);
  fflush(stdout);
  _exit(0);
}
// the executor hands out the same bytes, so hash-map iteration order is the same in both
ssize_t getrandom(void *p, size_t n, unsigned f) {
  (void)f;
  for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)((i * 37 + 11) & 255);
  return (ssize_t)n;
}
