// Runs one program of progs.h on the real system.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "monitor.h"
#ifdef STATIC
void conf_log(const char *fmt, ...);
#define SYM(f) f
static void syms(void) {}
#else
static void (*conf_log)(const char *, ...);
static void own_log(const char *fmt, ...) {
  const char *f = getenv("CONF_LOG"); char b[200]; va_list ap; if (!f) return;
  int n = snprintf(b, sizeof b, "%ld %ld ", (long)getpid(), (long)syscall(SYS_gettid));
  va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - n - 1, fmt, ap); va_end(ap);
  b[n++] = '\n';
  int fd = open(f, O_WRONLY | O_APPEND | O_CREAT, 0600); if (fd >= 0) { write(fd, b, n); close(fd); }
}
#define M(f) static __typeof__(f) *p_##f;
M(monitor_disable_new_threads) M(monitor_enable_new_threads) M(monitor_real_fork) M(monitor_broadcast_signal) M(monitor_sigaction)
#define SYM(f) p_##f
static void syms(void) {
  conf_log = (void (*)(const char *, ...))dlsym(RTLD_DEFAULT, "conf_log");
  if (!conf_log) conf_log = own_log;   // no client, or not monitored at all
#define L(f) p_##f = (__typeof__(f) *)dlsym(RTLD_DEFAULT, #f);
  L(monitor_disable_new_threads) L(monitor_enable_new_threads) L(monitor_real_fork) L(monitor_broadcast_signal) L(monitor_sigaction)
}
#endif
static volatile int running[32]; static int nthr; static pthread_t th[32]; static pthread_key_t key; static int dtor_on;
static const char *self;
static void hnd(int s) { conf_log("handler %d", s); }
static int cl_pass(int s, siginfo_t *i, void *c) { conf_log("client %d", s); return 1; }
static int cl_take(int s, siginfo_t *i, void *c) { conf_log("client %d", s); return 0; }
static void dtor(void *p) { conf_log("dtor"); }
static void handle(void) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = hnd; sigaction(SIGUSR2, &sa, NULL); }
static void *ret_body(void *a) { conf_log("start"); conf_log("end"); return a; }
struct arg { char k; int n; };
static void nap(int ms) { struct timespec t = {0, ms * 1000000L}; while (nanosleep(&t, &t) && errno == EINTR) ; }
static void *body(void *p) {
  struct arg *a = p; sigset_t s; int sig;
  conf_log("start"); running[a->n] = 1;
  if (dtor_on) pthread_setspecific(key, a);
  switch (a->k) {
  case 'x': conf_log("end"); pthread_exit(a);
  case 'p': for (;;) pause();
  case 'e': exit(5);
  case 'u': _exit(6);
  case 'k': raise(SIGTERM); break;
  case 'n': { pthread_t t; pthread_create(&t, NULL, ret_body, NULL); pthread_join(t, NULL); break; }
  case 'h': handle(); pthread_kill(pthread_self(), SIGUSR2); break;
  case 'w': sigfillset(&s); for (;;) { sigwait(&s, &sig); conf_log("sigwait"); }
  case 'z': sigfillset(&s); pthread_sigmask(SIG_SETMASK, &s, NULL); for (;;) pause();
  case 'f': { pid_t r = fork(); if (r == 0) { conf_log("child"); break; } int st; waitpid(r, &st, 0); conf_log("status %d", st); break; }
  }
  conf_log("end");
  return p;
}
static int life(char k) {
  char *av[] = {(char *)"app", (char *)"-", NULL}; pthread_t t;
  conf_log("child");
  switch (k) {
  case 'e': exit(9); case 'u': _exit(9);
  case 'c': pthread_create(&t, NULL, ret_body, NULL); pthread_join(t, NULL); exit(9);
  case 'x': execv("/bin/true", av); break;
  case 'k': raise(SIGTERM); break;
  case 'r': return 1;
  }
  return 0;
}
int main(int argc, char **argv) {
  const char *s = argv[1]; int st; static struct arg args[32]; char *av[] = {(char *)"true", NULL};
  syms(); self = argv[0]; unsetenv("LD_PRELOAD");
  conf_log("main");
  for (; *s; s++) switch (*s) {
  case 'i': case 'c': {
    int ign = *s == 'i'; args[nthr].k = *++s; args[nthr].n = nthr;
    if (ign) SYM(monitor_disable_new_threads)();
    pthread_create(&th[nthr], NULL, body, &args[nthr]);
    if (ign) SYM(monitor_enable_new_threads)();
    nthr++; break; }
  case 'j': { void *r = NULL; int e = pthread_join(th[nthr - 1], &r); conf_log("join %d", e == 0 && r == &args[nthr - 1]); break; }
  case 'y': while (!running[nthr - 1]) nap(1); nap(20); break;
  case 'f': case 'v': { char k = s[1]; pid_t r = *s == 'v' ? vfork() : fork(); s++; if (r == 0) { if (life(k)) return 8; } waitpid(r, &st, 0); conf_log("status %d", st); break; }
  case 'g': { pid_t r = SYM(monitor_real_fork)(); if (r == 0) { conf_log("child"); _exit(9); } waitpid(r, &st, 0); conf_log("status %d", st); break; }
  case 's': conf_log("system %d", system("exit 3")); break;
  case 'S': conf_log("system %d", system(NULL) != 0); break;
  case 'o': { void *h = dlopen(NULL, RTLD_LAZY); if (h) dlclose(h); break; }
  case 'q': handle(); raise(SIGUSR2); break;
  case 'Q': handle(); SYM(monitor_sigaction)(SIGUSR2, cl_pass, 0, NULL); raise(SIGUSR2); break;
  case 'N': handle(); SYM(monitor_sigaction)(SIGUSR2, cl_take, 0, NULL); raise(SIGUSR2); break;
  case 'G': raise(SIGURG); break;
  case 'm': { sigset_t b, o; sigemptyset(&b); sigaddset(&b, SIGUSR2); handle(); sigprocmask(SIG_BLOCK, &b, &o); raise(SIGUSR2); conf_log("blocked"); sigprocmask(SIG_SETMASK, &o, NULL); conf_log("unblocked"); break; }
  case 'W': { sigset_t b; struct timespec ts = {5, 0}; sigemptyset(&b); sigaddset(&b, SIGUSR2); sigprocmask(SIG_BLOCK, &b, NULL); raise(SIGUSR2); conf_log("sigtimedwait %d", sigtimedwait(&b, NULL, &ts)); break; }
  case 'B': handle(); conf_log("broadcast %d", SYM(monitor_broadcast_signal)(SIGUSR2)); nap(50); break;
  case 'D': pthread_key_create(&key, dtor); dtor_on = 1; break;
  case 'E': exit(3);
  case 'U': _exit(4);
  case 'V': _Exit(4);
  case 'R': return 2;
  case 'P': pthread_exit(NULL);
  case 'X': execv("/bin/true", av); break;
  case 'F': *(volatile int *)0 = 1; break;
  case 'K': raise(SIGTERM); break;
  case 'A': abort();
  }
  conf_log("fell through");
  return 77;
}
