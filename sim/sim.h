// monsim: a simulated operating system and an exhaustive explorer for the real libmonitor code.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <signal.h>
#include <pthread.h>
#include <ucontext.h>
#include <sys/types.h>
#include <time.h>

#define EXPORT extern "C" __attribute__((visibility("default"), used))

typedef uint64_t u64;
typedef int monitor_sighandler_t(int, siginfo_t *, void *);

// ---------------------------------------------------------------- events
enum Ev {
  E_NONE,
  // client callbacks; each also logs E_CBEND with a = callback
  CB_init_library, CB_fini_library, CB_init_process, CB_fini_process, CB_start_main_init, CB_at_main,
  CB_begin_process_exit, CB_pre_fork, CB_post_fork, CB_thread_pre_create, CB_thread_post_create,
  CB_init_thread_support, CB_init_thread, CB_fini_thread, CB_reset_stacksize, CB_pre_dlopen, CB_dlopen,
  CB_dlclose, CB_post_dlclose, CB_mpi_pre_init, CB_init_mpi, CB_fini_mpi, CB_mpi_post_fini, CB_wrap_main,
  CB_COUNT,
  E_CBEND = 40,
  // operating system events
  E_SYS_EXIT,        // exit(a) or _exit(a); b = 1 for _exit
  E_PROC_END,        // a = END_*, b = status or signal or -
  E_SYS_EXEC,        // a = path crc, b = 1 success
  E_SYS_CREATE,      // a = new thread id, b = result
  E_THR_END,         // thread's start function is over (before key destructors)
  E_THR_GONE,        // thread is dead for the system
  E_SYS_KILL,        // pthread_kill: a = target id, b = sig
  E_SYS_FORK,        // a = result class
  E_SIG_HANDLER,     // kernel calls a handler: a = sig
  E_SIG_DROP,        // kernel ignores a signal
  E_STOPPED,         // process stopped by a
  E_SYS_DLOPEN, E_SYS_DLCLOSE, E_SYS_SYSTEM, E_SYS_WAIT, E_WARN, E_ERRX,
  E_SYS_SIGACTION, E_SYS_SIGMASK, E_SYS_MPI,
  // application events (scenarios)
  E_APP_START = 80, E_APP_END, E_APP_MAIN, E_APP_OP, E_APP_RES, E_APP_HANDLER, E_CLIENT_HANDLER, E_APP_DTOR, E_USER,
};
enum { END_NONE, END_EXIT, END_SIGNAL, END_EXEC };

struct Event { uint8_t type; int8_t thr; int8_t depth; int8_t proc; long a, b, c; u64 t; };

// ---------------------------------------------------------------- threads
enum TState : uint8_t { T_FREE, T_READY, T_BLOCK, T_SLEEP, T_ZOMBIE, T_GONE };
enum BKind : uint8_t { B_NONE, B_FOREVER, B_JOIN, B_SIGWAIT, B_WAITPID, B_VAR, B_BARRIER };

#define MAXTHR 24
#define MAXKEY 16
#define NSIGS 65
#define MAXPEND 16

struct PendSig { int sig; siginfo_t si; };
struct SigQ { int n; PendSig q[MAXPEND]; };

struct Thr {
  int id;
  u64 ptid;
  TState st; BKind bk;
  bool env;              // environment pseudo-thread, not part of the process
  bool is_main, detached, joined, started, exiting;
  bool norestart;        // a handler without SA_RESTART has run
  bool interruptible;    // blocked call returns EINTR on handler
  bool cancelpoint;
  u64 wake;              // T_SLEEP
  long barg; u64 bset;   // block args
  int err;               // errno
  u64 mask;              // signal mask, bit sig-1
  SigQ pend;
  int depth;             // signal handler nesting
  int cancel_state; bool cancel_pending, cancel_async;
  void *unwind_top;      // __pthread_unwind_buf_t list
  void *tsd[MAXKEY];
  void *(*start)(void *); void *arg; void *ret;
  void *stack; size_t stack_size; void *sp;
  size_t attr_stack; int attr_detach; const void *attr_ptr;
  u64 hist;              // history hash
  const void *last_addr; u64 last_val; int same; int last_size; bool yielding, yieldcall; int spun; int yield_step; int nowait; // nowait: 1 + handler depth of a call that must not wait
  int interrupts;        // handlers run since block began
  u64 mtx_dummy;
  // harness
  int spec; void *app_arg; long app_ret; int creator; int exp_how; bool in_exit_call; int exp_status; int exp_kind;
  int mon_kind;          // what creation asked for: 0 unknown 1 monitored 2 ignored
  int script_pc;
};

// ---------------------------------------------------------------- world
struct World {
  Thr thr[MAXTHR];
  int nthr; int cur;
  u64 now;                    // microseconds
  u64 rt_off;                 // the time of day was set forward by this
  struct sigaction act[NSIGS];
  SigQ pend;                  // process-directed
  int pid, ppid, proc, fork_thr[8];        // proc: 0 = first process, 1 = its child, ...
  bool key_used[MAXKEY]; void (*key_dtor[MAXKEY])(void *);
  u64 free_ptid[MAXTHR]; int nfree; int nptid;
  bool ended; int end_kind; long end_status;
  void (*atexit_fn[16])(void); int natexit;
  int exit_owner; int child_n;
  u64 lastpid;
  int steps;
  const char *dlerr[MAXTHR];
  u64 sseed;
  // scenario variables (shared, read with sv_get / written with sv_set)
  long sv[64];
};
extern World W;

// scenario options, reset before each execution
struct Options {
  bool dynamic;        // library variant
  bool preload_ctor;   // run the library constructor before everything
  int max_steps;
  u64 horizon;         // microseconds of simulated time before it is a hang
  u64 stall;           // >0: a running thread may stall for this long (a deviation)
  bool early_wake;
  bool delay;          // delay bounding: also the choice among threads when the current one blocks costs
  int create_fault, fork_mode, attr_fault, malloc_fault;   // see sim.cc
  int follow;          // 0 choose, 1 parent, 2 child
  int exec_result;     // 0 choose success/fail when the file is executable
  const char *env[600]; int nenv; char **envp;
  struct { const char *path; int x; } files[64]; int nfiles;   // x: 0 exists, 1 executable, 2 directory
  bool debug;
  long dead_kill_ok;
  int rt_missing; int argc; char **argv;
};
extern Options O;

// ---------------------------------------------------------------- log
extern Event LOG[]; extern int NLOG;
void ev(int type, long a = 0, long b = 0, long c = 0);

// ---------------------------------------------------------------- choices
int pick(int n);                 // free choice 0..n-1 (enumerated exhaustively)
int pick_dev(int n);             // alternatives cost one deviation each
void point();                    // scheduling point
void fail(const char *prop, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(prop, c, ...) do { if (!(c)) fail(prop, __VA_ARGS__); } while (0)
void prune();                    // drop this execution (not a violation)

static inline Thr *cur() { return &W.thr[W.cur]; }
void mixh(u64 v);
long sv_get(int i); void sv_set(int i, long v);
static inline u64 sbit(int s) { return 1ull << (s - 1); }
u64 set2bits(const sigset_t *s); void bits2set(u64 b, sigset_t *s);

// blocking primitives for scenario code
void app_point();                        // a preemptible, signalable step of application code
void app_compute(bool cancelable = false);  // runs application code for ever (signals are handled)
void app_read();                         // blocks in a restartable system call; returns only on EINTR
int  app_sleep(u64 usec);                // returns 1 if interrupted
void app_wait_var(int i, long v);        // block until sv[i] == v (signals are handled)
void app_fault(int sig);                 // synchronous fault
int  app_join(int tid, void **ret);
void app_cancel(int tid);
void app_detach(int tid);
int  spawn_env(void (*fn)(long), long arg);   // environment pseudo thread
void env_kill_process(int sig, int code, int val);
int  send_thread(int tid, int sig, int code, int val);
void process_end(int kind, long status) __attribute__((noreturn));
void block_until(BKind k, long arg, u64 bset, bool interruptible, bool cancelpoint);
void deliver_signals();
bool testcancel();
Thr *thr_by_ptid(u64 p);
Thr *new_thr();
void start_process(int (*appmain)(int, char **, char **), int argc, char **argv, char **envp);
const char *evname(int t);
bool on_stack_of(Thr *t, const void *p);
bool in_lib_text(const void *p);

// ---------------------------------------------------------------- library entry points
typedef void *start_fn(void *);
struct Api {
  int (*pthread_create)(pthread_t *, const pthread_attr_t *, start_fn *, void *);
  void (*pthread_exit)(void *);
  int (*pthread_sigmask)(int, const sigset_t *, sigset_t *);
  int (*sigprocmask)(int, const sigset_t *, sigset_t *);
  int (*sigaction)(int, const struct sigaction *, struct sigaction *);
  void (*(*signal)(int, void (*)(int)))(int);
  int (*sigwait)(const sigset_t *, int *);
  int (*sigwaitinfo)(const sigset_t *, siginfo_t *);
  int (*sigtimedwait)(const sigset_t *, siginfo_t *, const struct timespec *);
  void (*exit)(int); void (*_exit)(int); void (*_Exit)(int);
  pid_t (*fork)(void); pid_t (*vfork)(void);
  int (*execl)(const char *, const char *, ...); int (*execlp)(const char *, const char *, ...);
  int (*execle)(const char *, const char *, ...);
  int (*execv)(const char *, char *const[]); int (*execvp)(const char *, char *const[]);
  int (*execve)(const char *, char *const[], char *const[]);
  int (*system)(const char *);
  void *(*dlopen)(const char *, int); int (*dlclose)(void *);
  int (*libc_start_main)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
  int (*wrap_main)(int, char **, char **);
  // monitor API
  void (*initialize)(void); void (*real_abort)(void); void (*real_exit)(int); pid_t (*real_fork)(void);
  int (*real_execve)(const char *, char *const[], char *const[]); int (*real_system)(const char *);
  void *(*real_dlopen)(const char *, int); int (*real_dlclose)(void *);
  int (*real_sigprocmask)(int, const sigset_t *, sigset_t *); int (*real_pthread_sigmask)(int, const sigset_t *, sigset_t *);
  int (*m_sigaction)(int, monitor_sighandler_t *, int, struct sigaction *);
  int (*broadcast_signal)(int); int (*is_threaded)(void); void *(*get_addr_main)(void);
  void *(*get_addr_thread_start)(void); void *(*get_user_data)(void); int (*get_thread_num)(void);
  void *(*stack_bottom)(void); int (*wide)(void *); int (*narrow)(void *); int (*proc_bottom)(void *); int (*thr_bottom)(void *);
  void (*set_size_rank)(int, int); int (*comm_size)(void); int (*comm_rank)(void);
  int (*block_shootdown)(void); void (*unblock_shootdown)(void);
  void (*disable_new_threads)(void); void (*enable_new_threads)(void); int (*get_new_thread_info)(void *);
};
extern Api A;
void *libsym(const char *name);   // symbol of the library under test or NULL

// ---------------------------------------------------------------- scenarios
struct Scenario {
  const char *name;
  void (*setup)();                 // may pick(); sets options, hooks
  int (*main)(int, char **, char **);
  void (*finish)();                // oracle over the finished execution
  const char *what;
  Scenario *next;
};
void register_scenario(Scenario *s);
struct RegScn { RegScn(Scenario *s) { register_scenario(s); } };
#define SCENARIO(nm, setupf, mainf, finishf, whatstr) \
  static Scenario scn_##nm = {#nm, setupf, mainf, finishf, whatstr, nullptr}; static RegScn reg_##nm(&scn_##nm);

// client policy hooks: called inside the callback; may be NULL
struct Hooks {
  void (*in[CB_COUNT])(long a, long b);
  void *(*init_process_ret)(void *data); void *(*init_thread_ret)(int tid, void *data);
  void *(*pre_create_ret)(void); void *(*pre_fork_ret)(void);
  size_t (*stacksize)(size_t);
  u64 undefined;           // callbacks (bit = Ev number) that the client does not define
  int new_argc;            // >0: monitor_init_process sets its argument count to this minus one
};
extern Hooks H;
extern long PARAM;      // command line parameter of the scenario
extern const char *ONLY;  // property filter, or NULL
