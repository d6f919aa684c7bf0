/* LD_PRELOAD library: delivers SIGINT to imfit in the middle of a fit, at a chosen FFT (two per model image),
   and reports how many FFTs followed.  Environment: INT_AT = count, INT_LOG = file. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

typedef void (*handler)(int);
static volatile int armed = 0;
static long n = 0, at = 0, raised = 0;

static int me(void) { return getenv("INT_LOG") != NULL; }
handler signal(int s, handler h) {
  static handler (*real)(int, handler) = NULL;
  if (!real) real = (handler (*)(int, handler))dlsym(RTLD_NEXT, "signal");
  handler r = real(s, h);
  if (s == SIGINT && h != SIG_DFL && h != SIG_IGN) armed = 1;
  return r;
}
int sigaction(int s, const struct sigaction *a, struct sigaction *o) {
  static int (*real)(int, const struct sigaction *, struct sigaction *) = NULL;
  if (!real) real = (int (*)(int, const struct sigaction *, struct sigaction *))dlsym(RTLD_NEXT, "sigaction");
  int r = real(s, a, o);
  if (s == SIGINT && a) armed = 1;
  return r;
}
void fftw_execute(void *p) {
  static void (*real)(void *) = NULL;
  if (!real) real = (void (*)(void *))dlsym(RTLD_NEXT, "fftw_execute");
  if (armed) {
    if (!at && getenv("INT_AT")) at = atol(getenv("INT_AT"));
    n++;
    if (n == at) { raised = 1; raise(SIGINT); }
  }
  real(p);
}
__attribute__((destructor)) static void done(void) {
  if (!me()) return;
  FILE *f = fopen(getenv("INT_LOG"), "w");
  if (f) { fprintf(f, "%ld %ld %ld\n", raised, at, n); fclose(f); }
}
