// A program that uses the parts of the system chosen by -DUSE_D (dlopen), _F (fork, system), _M (MPI), _T (threads), _S (signals),
// and its client in the same object or in a library of its own (-DCLIENT). Every event goes to the file CONF_LOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include "monitor.h"
#ifdef CLIENT
void conf_log(const char *fmt, ...) {
  const char *f = getenv("CONF_LOG"); char b[300]; va_list ap;
  if (!f) return;
  int n = snprintf(b, sizeof b, "%ld %ld ", (long)syscall(SYS_getpid), (long)syscall(SYS_gettid));
  va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - n - 1, fmt, ap); va_end(ap);
  b[n++] = '\n';
  int fd = syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_APPEND | O_CREAT, 0600);
  if (fd >= 0) { syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); }
}
void conf_note(const char *s) { conf_log("%s", s); }
static int seen_main;
// what a client can ask at any time, with only the functions that every configuration has
void conf_probe(const char *ev) {
  char m[100] = "";
#ifndef NOMPIQ
  snprintf(m, sizeof m, " mpi %d/%d", monitor_mpi_comm_rank(), monitor_mpi_comm_size());
#endif
  long d = (long)monitor_get_user_data();
  conf_log("%s threaded %d tid %d data %lx%s", ev, monitor_is_threaded(), monitor_get_thread_num(), d, m);
}
static int cl_take(int s, siginfo_t *i, void *c) { conf_log("client %d", s); return 0; }
int conf_sigaction(void) { return monitor_sigaction(SIGUSR1, cl_take, 0, NULL); }
int conf_dlopen(void) { void *h = monitor_real_dlopen(NULL, RTLD_LAZY); int r = h != NULL; if (h) r += 2 * (monitor_real_dlclose(h) == 0); else r = 4 * (monitor_real_dlclose(NULL) == -1); return r; }
int conf_tmask(void) { sigset_t a; sigemptyset(&a); return monitor_real_pthread_sigmask(SIG_BLOCK, &a, NULL); }
int conf_mask(void) { sigset_t a; sigemptyset(&a); return monitor_real_sigprocmask(SIG_BLOCK, &a, NULL); }
// where: 1 in main, 2 in a thread; frame: return address of the start function's call
int conf_frames(void *ret, void *start) {
  void *b = monitor_stack_bottom();
  return (monitor_in_start_func_narrow(ret) != 0) | (monitor_in_start_func_wide(ret) != 0) << 1 | (monitor_unwind_process_bottom_frame(ret) != 0) << 2 |
    (monitor_unwind_thread_bottom_frame(ret) != 0) << 3 | (b != NULL && memcmp(b, "stakbot", 7) == 0) << 4 | (monitor_get_addr_main() != NULL) << 5 |
    (start != NULL && monitor_get_addr_thread_start() == start) << 6 | (monitor_get_addr_thread_start() == NULL) << 7;
}
void monitor_init_library(void) { conf_probe("init_library"); }
void monitor_fini_library(void) { conf_probe("fini_library"); }
void *monitor_init_process(int *argc, char **argv, void *data) { conf_probe("init_process"); return (void *)(data == NULL ? 0x1111L : 0x5555L); }
void monitor_fini_process(int how, void *data) { conf_log("fini_process %d data %lx", how, (long)data); conf_probe("in"); }
void monitor_begin_process_exit(int how) { conf_log("begin_process_exit %d", how); conf_probe("in"); }
void monitor_start_main_init(void) { conf_log("start_main_init"); }
void monitor_at_main(void) { conf_probe("at_main"); }
void *monitor_pre_fork(void) { conf_probe("pre_fork"); return (void *)0x2222; }
void monitor_post_fork(pid_t child, void *data) { conf_log("post_fork %d data %lx", child > 0, (long)data); }
void *monitor_thread_pre_create(void) { conf_probe("thread_pre_create"); return (void *)0x3333; }
void monitor_thread_post_create(void *data) { conf_log("thread_post_create data %lx", (long)data); }
void monitor_init_thread_support(void) { conf_probe("init_thread_support"); }
void *monitor_init_thread(int tid, void *data) { conf_log("init_thread %d data %lx", tid, (long)data); return (void *)(0x4440L + tid); }
void monitor_fini_thread(void *data) { conf_log("fini_thread data %lx", (long)data); conf_probe("in"); }
size_t monitor_reset_stacksize(size_t n) { conf_log("reset_stacksize"); return n; }
void monitor_pre_dlopen(const char *path, int flags) { conf_log("pre_dlopen"); }
void monitor_dlopen(const char *path, int flags, void *handle) { conf_log("dlopen"); }
void monitor_dlclose(void *handle) { conf_log("dlclose"); }
void monitor_post_dlclose(void *handle, int ret) { conf_log("post_dlclose"); }
void monitor_mpi_pre_init(void) { conf_log("mpi_pre_init"); }
void monitor_init_mpi(int *argc, char ***argv) { conf_log("init_mpi argc %d", *argc); }
void monitor_fini_mpi(void) { conf_probe("fini_mpi"); }
void monitor_mpi_post_fini(void) { conf_log("mpi_post_fini"); }
#else
#ifdef STATIC
void conf_log(const char *fmt, ...); void conf_probe(const char *); int conf_sigaction(void), conf_dlopen(void), conf_mask(void), conf_tmask(void), conf_frames(void *, void *);
static void syms(void) {}
#else
static void (*conf_log)(const char *, ...), (*conf_probe)(const char *); static int (*conf_sigaction)(void), (*conf_dlopen)(void), (*conf_mask)(void), (*conf_tmask)(void), (*conf_frames)(void *, void *);
#define L(f) f = (__typeof__(f))dlsym(RTLD_DEFAULT, #f); if (!f) { write(2, "no " #f "\n", 6); _exit(99); }
static void syms(void) { L(conf_log) L(conf_probe) L(conf_sigaction) L(conf_dlopen) L(conf_mask) L(conf_tmask) L(conf_frames) }
#endif
#ifdef USE_M
int MPI_Init(int *, char ***), MPI_Finalize(void), MPI_Comm_rank(void *, int *);
#endif
#ifdef USE_S
static void hnd(int s) { conf_log("handler %d", s); }
#endif
#ifdef USE_T
static volatile int up;
static void *stay(void *a) { up = 1; for (;;) pause(); }
static void *body(void *a) { conf_probe("thread"); conf_log("frames %d", conf_frames(__builtin_return_address(0), (void *)body)); return a; }
#endif
int main(int argc, char **argv) {
  syms(); unsetenv("LD_PRELOAD");
  conf_probe("main");
  conf_log("frames %d", conf_frames(__builtin_return_address(0), NULL));
  conf_log("real_sigprocmask %d", conf_mask()); conf_log("real_dlopen %d", conf_dlopen()); conf_log("real_pthread_sigmask %d", conf_tmask());
#ifdef USE_S
  struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = hnd;
  sigaction(SIGUSR1, &sa, NULL); sigaction(SIGUSR2, &sa, NULL); sigaction(SIGUSR2, NULL, &old);
  conf_log("old %d", old.sa_handler == hnd);
  raise(SIGUSR2); conf_log("monitor_sigaction %d", conf_sigaction()); raise(SIGUSR1); raise(SIGUSR2); raise(SIGURG);
#endif
#ifdef USE_D
  void *h = dlopen(NULL, RTLD_LAZY); conf_log("handle %d", h != NULL); if (h) conf_log("closed %d", dlclose(h));
#endif
#ifdef USE_M
  int r; conf_log("MPI_Init %d", MPI_Init(&argc, &argv)); MPI_Comm_rank(NULL, &r); conf_log("rank %d", r); conf_log("MPI_Finalize %d", MPI_Finalize());
#endif
#ifdef USE_T
  pthread_t t; void *v = NULL; conf_log("create %d", pthread_create(&t, NULL, body, &t)); pthread_join(t, &v); conf_log("join %d", v == &t); conf_probe("joined");
#endif
#ifdef USE_F
  conf_log("system %d", system("exit 3"));
  pid_t p = fork(); int st = -1;
  if (p == 0) { conf_probe("child"); exit(9); }
  waitpid(p, &st, 0); conf_log("status %d", st);
#endif
#ifdef USE_T
  conf_log("create %d", pthread_create(&t, NULL, stay, &t)); while (!up) usleep(1000);
#endif
  conf_log("end");
  exit(3);
}
#endif
