// Application programs for scenarios, and the oracles over the log of an execution.
#pragma once
#include "internal.h"
#include "hooks.h"

// what an application thread (or main) does
enum Kind {
  K_RETURN, K_PEXIT, K_COMPUTE, K_SLEEPER, K_SIGWAIT, K_BLOCKED, K_SHOOTBLOCK, K_SHOOTEND, K_SHOOTNEVER, K_CANCELED,
  K_EXIT, K_UEXIT, K_UEXIT2, K_EXEC, K_ABORTSIG, K_FAULT, K_CREATE, K_FORK, K_NESTJOIN, K_CUSTOM, K_READ, K_ENDBLOCKED, K_UNBLOCK, K_BLOCKWAIT, K_KINDS
};
extern const char *kind_name[];
bool kind_ends(int k);      // ends the process by itself
struct Spec { int kind; int status; void *(*fn)(struct Spec *); long x, y; };
struct App {
  Spec spec[MAXTHR]; int nspec; int pending[MAXTHR];
  int signo;             // for K_ABORTSIG, K_FAULT
  int reenter;           // 1: begin_process_exit, 2: fini_process, 3: exit handler calls exit again
  u64 slow_begin, slow_fini_process, slow_fini_thread, slow_fini_library, slow_init_thread;
  int sync;              // 1: main goes on when all threads have started; 2: threads go on when the exit has begun
  bool no_thread_checks;
  bool support_creates;  // monitor_init_thread_support itself creates a thread
  bool async_sig;        // signo may come from outside at any time, its action is the default (fatal)
  bool dtor_probe;
};
extern App AP;
void app_setup();                                     // first call of every setup
int app_create(int kind, int status = 0, void *(*fn)(Spec *) = nullptr, const pthread_attr_t *attr = nullptr, long x = 0);  // simulated thread or -1
void end_op(int kind, int status);                    // ends the process (or thread) in the given way
void run_kind(Spec *s);                               // body of an application thread
void app_barrier(int nthreads);                       // main: see App::sync
void probe(const char *where);                        // checks the identity queries of the calling thread
void *app_thread(void *); start_fn *start_of(int spec);   // the start routine of a specification: two of them, in turn
// oracles: each looks at the whole log
void check_all();
int find_ev(int from, int type, int thr = -1, int proc = -1);
int count_ev(int type, int proc = -1);
enum { SV_STARTED = 60, SV_EXITING = 61 };
enum { OP_CREATE = 1, OP_EXIT, OP_FORK, OP_EXEC, OP_JOIN, OP_MISC };
