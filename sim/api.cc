// Entry points of the library under test, the client's callbacks, and the simulated MPI library.
#include "internal.h"
#include "hooks.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

template <class T> static void bind1(T &f, const char *name, bool must) {
  f = (T)libsym(name);
  if (!f && must) { fprintf(stderr, "monsim: the library does not define %s\n", name); exit(3); }
}
void bind_api() {
#define O_(f, n) bind1(A.f, "mon_" n, true);
#define M_(f, n) bind1(A.f, "monitor_" n, true);
  O_(pthread_create, "pthread_create") O_(pthread_exit, "pthread_exit") O_(pthread_sigmask, "pthread_sigmask") O_(sigprocmask, "sigprocmask")
  O_(sigaction, "sigaction") O_(signal, "signal") O_(sigwait, "sigwait") O_(sigwaitinfo, "sigwaitinfo") O_(sigtimedwait, "sigtimedwait")
  O_(exit, "exit") O_(_exit, "_exit") O_(_Exit, "_Exit") O_(fork, "fork") O_(vfork, "vfork")
  O_(execl, "execl") O_(execlp, "execlp") O_(execle, "execle") O_(execv, "execv") O_(execvp, "execvp") O_(execve, "execve")
  O_(system, "system") O_(dlopen, "dlopen") O_(dlclose, "dlclose")
  bind1(A.libc_start_main, "mon___libc_start_main", false); bind1(A.wrap_main, "mon_main", false);
  M_(initialize, "initialize") M_(real_abort, "real_abort") M_(real_exit, "real_exit") M_(real_fork, "real_fork") M_(real_execve, "real_execve")
  M_(real_system, "real_system") M_(real_dlopen, "real_dlopen") M_(real_dlclose, "real_dlclose") M_(real_sigprocmask, "real_sigprocmask")
  M_(real_pthread_sigmask, "real_pthread_sigmask") M_(m_sigaction, "sigaction") M_(broadcast_signal, "broadcast_signal") M_(is_threaded, "is_threaded")
  M_(get_addr_main, "get_addr_main") M_(get_addr_thread_start, "get_addr_thread_start") M_(get_user_data, "get_user_data")
  M_(get_thread_num, "get_thread_num") M_(stack_bottom, "stack_bottom") M_(wide, "in_start_func_wide") M_(narrow, "in_start_func_narrow")
  M_(proc_bottom, "unwind_process_bottom_frame") M_(thr_bottom, "unwind_thread_bottom_frame") M_(set_size_rank, "set_size_rank")
  M_(comm_size, "mpi_comm_size") M_(comm_rank, "mpi_comm_rank") M_(block_shootdown, "block_shootdown") M_(unblock_shootdown, "unblock_shootdown")
  M_(disable_new_threads, "disable_new_threads") M_(enable_new_threads, "enable_new_threads") M_(get_new_thread_info, "get_new_thread_info")
}

// ---------------------------------------------------------------- client
static void enter(int cb, long a, long b, long c) { point(); ev(cb, a, b, c); if (H.in[cb]) H.in[cb](a, b); cur()->err = EBADF; point(); }   // client code may change errno
static void leave(int cb, long r = 0) { ev(E_CBEND, cb, r); point(); }
// The callbacks that the client of this execution does not define (H.undefined) are the library's defaults; we only record the call.
static void *DEF[CB_COUNT];
static bool undef(int cb) { return H.undefined >> cb & 1; }
#define VCB(name, args, a, b, c, FT, pass) EXPORT void monitor_##name args { \
  if (undef(CB_##name)) { point(); ev(CB_##name, (long)(a), (long)(b), (long)(c)); ((void (*) FT)DEF[CB_##name]) pass; point(); } \
  else enter(CB_##name, (long)(a), (long)(b), (long)(c)); \
  leave(CB_##name); }
#define RCB(R, name, args, a, b, c, FT, pass, own) EXPORT R monitor_##name args { \
  R r; long tok = NLOG; (void)tok; \
  if (undef(CB_##name)) { point(); ev(CB_##name, (long)(a), (long)(b), (long)(c)); r = ((R (*) FT)DEF[CB_##name]) pass; check_default(CB_##name, (long)(a), (long)(b), (long)(c), (long)r); point(); } \
  else { enter(CB_##name, (long)(a), (long)(b), (long)(c)); r = own; } \
  leave(CB_##name, (long)r); return r; }
static void check_default(int cb, long a, long b, long c, long r) {
  (void)b;
  if (cb == CB_init_process) CHECK("C25", r == c, "the default monitor_init_process gives %lx, its data is %lx", r, c);
  if (cb == CB_init_thread) CHECK("C25", r == b, "the default monitor_init_thread gives %lx, its data is %lx", r, b);
  if (cb == CB_pre_fork || cb == CB_thread_pre_create) CHECK("C25", r == 0, "the default %s gives %lx", evname(cb), r);
  if (cb == CB_reset_stacksize) CHECK("C25", r == a, "the default monitor_reset_stacksize gives %ld for %ld", r, a);
  if (cb == CB_wrap_main) CHECK("C25", r == 0, "the default monitor_wrap_main gives %ld", r);
}
static void *new_args(int *argc, void *r) { if (argc && H.new_argc) *argc = H.new_argc - 1; return r; }
#define CB0(name) VCB(name, (), 0, 0, 0, (), ())
CB0(init_library) CB0(fini_library) CB0(start_main_init) CB0(at_main) CB0(init_thread_support) CB0(mpi_pre_init) CB0(fini_mpi) CB0(mpi_post_fini)
RCB(void *, init_process, (int *argc, char **argv, void *data), argc ? *argc : -1, argv, data, (int *, char **, void *), (argc, argv, data),
    new_args(argc, H.init_process_ret ? H.init_process_ret(data) : (void *)(0x10000 + tok)))
VCB(fini_process, (int how, void *data), how, data, 0, (int, void *), (how, data))
VCB(begin_process_exit, (int how), how, 0, 0, (int), (how))
RCB(void *, pre_fork, (), 0, 0, 0, (), (), H.pre_fork_ret ? H.pre_fork_ret() : (void *)(0x40000 + tok))
VCB(post_fork, (pid_t c, void *d), c, d, 0, (pid_t, void *), (c, d))
RCB(void *, thread_pre_create, (), 0, 0, 0, (), (), H.pre_create_ret ? H.pre_create_ret() : (void *)(0x30000 + tok))
VCB(thread_post_create, (void *d), d, 0, 0, (void *), (d))
RCB(void *, init_thread, (int tid, void *d), tid, d, 0, (int, void *), (tid, d), H.init_thread_ret ? H.init_thread_ret(tid, d) : (void *)(0x20000 + tok))
VCB(fini_thread, (void *d), d, 0, 0, (void *), (d))
RCB(size_t, reset_stacksize, (size_t n), n, 0, 0, (size_t), (n), H.stacksize ? H.stacksize(n) : n)
VCB(pre_dlopen, (const char *p, int f), p, f, 0, (const char *, int), (p, f))
VCB(dlopen, (const char *p, int f, void *h), p, f, h, (const char *, int, void *), (p, f, h))
VCB(dlclose, (void *h), h, 0, 0, (void *), (h))
VCB(post_dlclose, (void *h, int r), h, r, 0, (void *, int), (h, r))
VCB(init_mpi, (int *argc, char ***argv), argc, argv, 0, (int *, char ***), (argc, argv))
RCB(int, wrap_main, (int argc, char **argv, char **envp), argc, argv, 0, (int, char **, char **), (argc, argv, envp), 0)

// which callbacks the client leaves out: none, all, each one, all but each one; a callback in which the scenario acts stays
void choose_undefined() {
  int n = CB_COUNT - 1;   // callbacks are 1..n
  int k = pick(2 * n + 2);
  u64 all = ((1ull << n) - 1) << 1;
  u64 m = k == 0 ? 0 : k == 1 ? all : k < n + 2 ? 1ull << (k - 1) : all & ~(1ull << (k - 1 - n));
  H.undefined = m;
}
void undefined_for_scenario() {   // after the scenario's set-up
  for (int cb = 1; cb < CB_COUNT; cb++) if (H.in[cb]) H.undefined &= ~(1ull << cb);
  if (H.init_process_ret || H.new_argc) H.undefined &= ~(1ull << CB_init_process);
  if (H.init_thread_ret) H.undefined &= ~(1ull << CB_init_thread);
  if (H.pre_create_ret) H.undefined &= ~(1ull << CB_thread_pre_create);
  if (H.pre_fork_ret) H.undefined &= ~(1ull << CB_pre_fork);
  if (H.stacksize) H.undefined &= ~(1ull << CB_reset_stacksize);
  if (!H.undefined) return;
  for (int cb = 1; cb < CB_COUNT; cb++) { char nm[64]; snprintf(nm, sizeof nm, "monitor_%s", evname(cb) + 3); bind1(DEF[cb], nm, true); }
}

// ---------------------------------------------------------------- MPI
static long mpi(int fn, int bind, int p, void *a0 = nullptr, void *a1 = nullptr, void *a2 = nullptr, void *a3 = nullptr) {
  if (S.on_mpi) return S.on_mpi(fn, bind, p, a0, a1, a2, a3);
  return 0;
}
#define CB4(P, p, pn) \
  EXPORT int sim_##P##_Init(void *a, void *b) { return mpi(MPI_INIT, 0, pn, a, b); } \
  EXPORT int sim_##P##_Init_thread(void *a, void *b, long c, void *d) { return mpi(MPI_INIT_THREAD, 0, pn, a, b, (void *)(long)(int)c, d); } \
  EXPORT int sim_##P##_Finalize() { return mpi(MPI_FINALIZE, 0, pn); } \
  EXPORT int sim_##P##_Comm_size(void *a, void *b) { return mpi(MPI_COMM_SIZE, 0, pn, a, b); } \
  EXPORT int sim_##P##_Comm_rank(void *a, void *b) { return mpi(MPI_COMM_RANK, 0, pn, a, b); } \
  FB(p, , 1, pn) FB(p, _, 2, pn) FB(p, __, 3, pn)
#define FB(p, u, bn, pn) \
  EXPORT void sim_##p##_init##u(void *a) { mpi(MPI_INIT, bn, pn, a); } \
  EXPORT void sim_##p##_init_thread##u(void *a, void *b, void *c) { mpi(MPI_INIT_THREAD, bn, pn, a, b, c); } \
  EXPORT void sim_##p##_finalize##u(void *a) { mpi(MPI_FINALIZE, bn, pn, a); } \
  EXPORT void sim_##p##_comm_size##u(void *a, void *b, void *c) { mpi(MPI_COMM_SIZE, bn, pn, a, b, c); } \
  EXPORT void sim_##p##_comm_rank##u(void *a, void *b, void *c) { mpi(MPI_COMM_RANK, bn, pn, a, b, c); }
CB4(MPI, mpi, 0)
CB4(PMPI, pmpi, 1)
