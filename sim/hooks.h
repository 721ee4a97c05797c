#pragma once
#include "sim.h"
// system-side hooks of a scenario, reset before each execution
struct Sys {
  void (*on_create)(Thr *t, const pthread_attr_t *, start_fn *, void *);
  void (*on_cancel)();
  bool (*fault_fixed)();
  void (*on_sigaction)(int, const struct sigaction *);
  void (*on_sigmask)(int thread, int how, const sigset_t *);
  int (*on_sigwait)(u64 set, siginfo_t *, const struct timespec *);
  void (*on_sig_deliver)(int, siginfo_t *);
  void (*on_prefork)(); void (*on_child)();
  pid_t (*on_waitpid)(pid_t, int *, int);
  void (*on_access)(const char *);
  void (*on_exec)(int which, const char *path, char *const argv[], char *const envp[], int err);
  int (*on_system)(const char *);
  void *(*on_dlopen)(const char *, int); int (*on_dlclose)(void *);
  long (*on_mpi)(int fn, int bind, int p, void *a0, void *a1, void *a2, void *a3);
  void (*app_init)();
  bool errx_ok, warn_ok;
  const char *deadkill_prop;
};
enum { MPI_INIT, MPI_INIT_THREAD, MPI_FINALIZE, MPI_COMM_SIZE, MPI_COMM_RANK };
extern Sys S;
void run_lib_ctors(); void run_lib_dtors();
int sys_exec_result(const char *file, bool search);
extern "C" char **sim_environ;
