// The objects of the link-map runs (property C27), one per -DROLE.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
extern void conf_note(const char *) __attribute__((weak));
static void note(const char *fmt, ...) { char b[200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (conf_note) conf_note(b); }
static const char *base(const char *p) { const char *s; if (!p) return "-"; s = strrchr(p, '/'); return s ? s + 1 : p; }

#ifdef CLIENT   // logs every callback
void conf_note(const char *s) {
  const char *f = getenv("CONF_LOG"); char b[300]; if (!f) return;
  int n = snprintf(b, sizeof b, "%ld %s\n", (long)syscall(SYS_getpid), s);
  int fd = syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_APPEND | O_CREAT, 0600);
  if (fd >= 0) { syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); }
}
void *monitor_init_process(int *argc, char **argv, void *data) { note("init_process"); return data; }
void monitor_fini_process(int how, void *data) { note("fini_process"); }
void *monitor_pre_fork(void) { note("pre_fork"); return NULL; }
void monitor_post_fork(pid_t child, void *data) { note("post_fork"); }
void *monitor_thread_pre_create(void) { note("thread_pre_create"); return NULL; }
void monitor_thread_post_create(void *data) { note("thread_post_create"); }
void monitor_pre_dlopen(const char *path, int flags) { note("pre_dlopen %s", base(path)); }
void monitor_dlopen(const char *path, int flags, void *handle) { note("dlopen %s %d", base(path), handle != NULL); }
void monitor_dlclose(void *handle) { note("dlclose"); }
void monitor_post_dlclose(void *handle, int ret) { note("post_dlclose %d", ret); }
void monitor_mpi_pre_init(void) { note("mpi_pre_init"); }
void monitor_init_mpi(int *argc, char ***argv) { note("init_mpi"); }
int monitor_mpi_comm_rank(void), monitor_mpi_comm_size(void);
void monitor_fini_mpi(void) { note("fini_mpi %d/%d", monitor_mpi_comm_rank(), monitor_mpi_comm_size()); }
void monitor_mpi_post_fini(void) { note("mpi_post_fini"); }
#endif

#ifdef ITOR     // passes MPI calls on, as tools do
#define NEXT(f) __typeof__(f) *n = (__typeof__(f) *)dlsym(RTLD_NEXT, #f); note("I:" #f);
int MPI_Init(int *a, char ***b) { NEXT(MPI_Init) return n ? n(a, b) : 301; }
int MPI_Init_thread(int *a, char ***b, int q, int *p) { NEXT(MPI_Init_thread) if (n) return n(a, b, q, p); *p = 307; return 302; }
int MPI_Finalize(void) { NEXT(MPI_Finalize) return n ? n() : 303; }
int MPI_Comm_size(void *c, int *r) { __typeof__(MPI_Comm_size) *n = (__typeof__(MPI_Comm_size) *)dlsym(RTLD_NEXT, "MPI_Comm_size"); if (n) return n(c, r); *r = 340; return 0; }
int MPI_Comm_rank(void *c, int *r) { NEXT(MPI_Comm_rank) if (n) return n(c, r); *r = 304; return 0; }
#endif

#ifdef TOOL     // linked with libmonitor
int monitor_is_threaded(void); int tool(void) { return monitor_is_threaded(); }
#endif

#ifdef PLUG     // makes the calls, in every language binding
#define ALLC(X) X(c, MPI_Init, MPI_Comm_rank, MPI_Finalize, MPI_Init_thread) X(p, PMPI_Init, PMPI_Comm_rank, PMPI_Finalize, PMPI_Init_thread)
#define ALLF(X) X(f, mpi_init, mpi_comm_rank, mpi_finalize, mpi_init_thread) X(g, mpi_init_, mpi_comm_rank_, mpi_finalize_, mpi_init_thread_) X(h, mpi_init__, mpi_comm_rank__, mpi_finalize__, mpi_init_thread__)
#define DC(k, I, R, F, T) int I(int *, char ***), R(void *, int *), F(void), T(int *, char ***, int, int *);
#define DF(k, I, R, F, T) void I(int *), R(int *, int *, int *), F(int *), T(int *, int *, int *);
ALLC(DC) ALLF(DF)
#define CC(k, I, R, F, T) if (*#k == how[0]) { if (how[1]) note("init %d", T(NULL, NULL, 7, &prov)); else note("init %d", I(NULL, NULL)); R(NULL, &r); note("rank %d", r); R(NULL, &r); note("rank %d", r); note("finalize %d", F()); }
#define CF(k, I, R, F, T) if (*#k == how[0]) { if (how[1]) T(&req, &prov, &e); else I(&e); note("init %d", e); R(&c, &r, &e); note("rank %d", r); R(&c, &r, &e); note("rank %d", r); F(&e); note("finalize %d", e); }
void plug(const char *how) {
  int r = -1, e = -1, c = 0, req = 7, prov = -1;
  ALLC(CC) ALLF(CF)
  if (how[1]) note("provided %d", prov);
}
#endif

#ifdef WRAPPER  // a library that wraps functions of the C library, as other tools do
#define N(f) static __typeof__(f) *n; if (!n) n = (__typeof__(f) *)dlsym(RTLD_NEXT, #f)
static __thread int off;
pid_t fork(void) { N(fork); note("W:fork"); return n(); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { N(pthread_create); note("W:pthread_create"); return n(t, a, f, p); }
void *dlopen(const char *p, int f) { N(dlopen); if (!(f & RTLD_NOLOAD)) note("W:dlopen"); return n(p, f); }
int execv(const char *p, char *const a[]) { N(execv); note("W:execv"); return n(p, a); }
void exit(int s) { static void (*n)(int); n = (void (*)(int))dlsym(RTLD_NEXT, "exit"); note("W:exit"); n(s); _exit(98); }
void _exit(int s) { static void (*n)(int); n = (void (*)(int))dlsym(RTLD_NEXT, "_exit"); note("W:_exit"); n(s); for (;;) ; }
#define ON(f) if (getenv("LK_ON")) note("W:" #f)
int sigprocmask(int h, const sigset_t *s, sigset_t *o) { N(sigprocmask); ON(sigprocmask); return n(h, s, o); }
int pthread_sigmask(int h, const sigset_t *s, sigset_t *o) { N(pthread_sigmask); ON(pthread_sigmask); return n(h, s, o); }
int sigtimedwait(const sigset_t *s, siginfo_t *i, const struct timespec *t) { N(sigtimedwait); ON(sigtimedwait); return n(s, i, t); }
int sigwaitinfo(const sigset_t *s, siginfo_t *i) { N(sigwaitinfo); ON(sigwaitinfo); return n(s, i); }
int dlclose(void *h) { N(dlclose); ON(dlclose); return n(h); }
int execve(const char *p, char *const a[], char *const e[]) { N(execve); ON(execve); return n(p, a, e); }
void pthread_exit(void *v) { static void (*n)(void *); n = (void (*)(void *))dlsym(RTLD_NEXT, "pthread_exit"); ON(pthread_exit); unsetenv("LK_ON"); n(v); for (;;) ; }
#endif

#ifdef APP
static void *leave(void *a) { setenv("LK_ON", "1", 1); pthread_exit(a); }
static void *body(void *a) { return a; }
int main(int argc, char **argv) {
  void *h[8]; int nh = 0, k, st; char *t[] = {"true", NULL}; pthread_t th; sigset_t m; struct timespec zero = {0, 0};
  unsetenv("LD_PRELOAD");
  note("main");
  for (k = 1; k < argc; k++) switch (argv[k][0]) {
  case 'g': case 'l': h[nh] = dlopen(argv[k] + 2, RTLD_NOW | (argv[k][0] == 'g' ? RTLD_GLOBAL : RTLD_LOCAL)); if (!h[nh++]) { note("dlopen failed: %s", dlerror()); return 97; } break;
  case 'c': { void (*f)(const char *) = (void (*)(const char *))dlsym(h[nh - 1], "plug"); f(argv[k] + 2); break; }
  case 'x': while (nh) dlclose(h[--nh]); break;
  case 's': note("global %s %d", argv[k] + 2, dlsym(RTLD_DEFAULT, argv[k] + 2) != NULL); break;
  case 'n': note("loaded %s %d", base(argv[k] + 2), dlopen(argv[k] + 2, RTLD_NOW | RTLD_NOLOAD) != NULL); break;
  case 'F': if (fork() == 0) _exit(9); wait(&st); note("status %d", st); break;
  case 'E': if (fork() == 0) { execv("/bin/true", t); _exit(9); } wait(&st); note("status %d", st); break;
  case 'T': pthread_create(&th, NULL, body, NULL); pthread_join(th, NULL); break;
  case 'M': setenv("LK_ON", "1", 1); sigemptyset(&m); sigprocmask(SIG_BLOCK, &m, NULL); unsetenv("LK_ON"); break;
  case 'K': setenv("LK_ON", "1", 1); sigemptyset(&m); pthread_sigmask(SIG_BLOCK, &m, NULL); unsetenv("LK_ON"); break;
  case 'W': setenv("LK_ON", "1", 1); sigemptyset(&m); sigaddset(&m, SIGUSR2); note("got %d", sigtimedwait(&m, NULL, &zero)); unsetenv("LK_ON"); break;
  case 'I': sigemptyset(&m); sigaddset(&m, SIGUSR2); sigprocmask(SIG_BLOCK, &m, NULL); raise(SIGUSR2); setenv("LK_ON", "1", 1); note("got %d", sigwaitinfo(&m, NULL)); unsetenv("LK_ON"); break;
  case 'C': { void *d = dlopen("libm.so.6", RTLD_NOW); setenv("LK_ON", "1", 1); dlclose(d); unsetenv("LK_ON"); break; }
  case 'V': if (fork() == 0) { setenv("LK_ON", "1", 1); execve("/bin/true", t, environ); _exit(9); } wait(&st); note("status %d", st); break;
  case 'P': pthread_create(&th, NULL, leave, NULL); pthread_join(th, NULL); unsetenv("LK_ON"); break;
  case 'Q': _exit(4);
  }
  note("end");
  exit(3);
}
#endif
