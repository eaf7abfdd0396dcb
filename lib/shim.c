/* Preloaded into concurrent runs: widens the windows between file operations, makes the
   clock coarse or lets it stand still, and logs what happened. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static unsigned state;
static long env(char const *n) { char const *s = getenv(n); return s ? atol(s) : 0; }

static void note(char const *what, int result) {
  char const *f = getenv("SHIM_LOG");
  if (!f) { return; }
  char b[64];
  int n = snprintf(b, sizeof b, "%s %d\n", what, result);
  int fd = open(f, O_WRONLY | O_APPEND | O_CREAT, 0666);
  if (fd >= 0) { if (write(fd, b, n)) {} close(fd); }
}
static void dawdle(char const *path) {
  long us = env("SHIM_DELAY");
  if (!us || !path || !strstr(path, "output")) { return; }
  if (!state) { state = 2654435761u * (unsigned)getpid() + (unsigned)env("SHIM_SEED"); }
  state = state * 1664525u + 1013904223u;
  if ((state >> 28) < 8) { usleep((state >> 8) % us); }
}
static int (*real_clock)(clockid_t, struct timespec *);
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!real_clock) { real_clock = dlsym(RTLD_NEXT, "clock_gettime"); }
  int r = real_clock(c, t);
  static int first = 1;
  static long calls;
  if (c != CLOCK_REALTIME || r) { return r; }
  long align = env("SHIM_ALIGN"), coarse = env("SHIM_COARSE"), fix = env("SHIM_FIX"), n = env("SHIM_FIX_CALLS");
  if (first && align) {       /* everybody starts at the same moment */
    long ms = t->tv_nsec / 1000000;
    usleep((align - ms % align) * 1000 - (t->tv_nsec / 1000) % 1000);
    r = real_clock(c, t);
  }
  first = 0;
  if (coarse) { t->tv_nsec -= t->tv_nsec % (coarse * 1000000); }
  if (fix && (!n || calls < n)) { t->tv_sec = fix; t->tv_nsec = 123000000; note("fixed", 0); }
  ++calls;
  return r;
}
int mkdir(char const *p, mode_t m) {
  static int (*real)(char const *, mode_t);
  if (!real) { real = dlsym(RTLD_NEXT, "mkdir"); }
  dawdle(p);
  int r = real(p, m), e = errno;
  note("mkdir", r ? e : 0);
  dawdle(p);
  errno = e;
  return r;
}
int stat(char const *p, struct stat *s) {
  static int (*real)(char const *, struct stat *);
  if (!real) { real = dlsym(RTLD_NEXT, "stat"); }
  int r = real(p, s), e = errno;
  dawdle(p);
  errno = e;
  return r;
}
FILE *fopen(char const *p, char const *m) {
  static FILE *(*real)(char const *, char const *);
  if (!real) { real = dlsym(RTLD_NEXT, "fopen"); }
  dawdle(p);
  FILE *r = real(p, m);
  int e = errno;
  note("fopen", r ? 0 : e);
  dawdle(p);
  errno = e;
  return r;
}
FILE *fopen64(char const *p, char const *m) {
  static FILE *(*real)(char const *, char const *);
  if (!real) { real = dlsym(RTLD_NEXT, "fopen64"); }
  dawdle(p);
  FILE *r = real(p, m);
  int e = errno;
  note("fopen", r ? 0 : e);
  dawdle(p);
  errno = e;
  return r;
}
