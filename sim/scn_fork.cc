// fork: the child of any thread at any time is a sound process of its own.
#include "app.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>

static int WHO, CK, NS, SK[3], PK, VF, REALF, DEPTH;
#define N(a) ((int)(sizeof a / sizeof a[0]))
enum { C_EXIT, C_UEXIT, C_RETURN, C_PEXIT, C_EXEC, C_SIG, C_CREATE, C_CREATEJOIN, C_RUN, C_RACE, C_FORK, C_JOINRET, C_KINDS };
enum { W_MAIN, W_SIDE, W_IGNORED, W_ATEXIT, W_HANDLER, W_BOTH };

static long do_fork(int real) {
  Thr *t = cur(); int at = NLOG;
  ev(E_APP_OP, OP_FORK, real); int proc = W.proc;
  t->err = 4711; void *sb = A.stack_bottom();
  pid_t r = real ? A.real_fork() : VF ? A.vfork() : A.fork();
  t = cur();
  int sys = -1, nsys = 0, npre = 0, npost = 0, ninit = 0, pree = -1, post = -1, init = -1, inite = -1; int thr = t->id, dep = t->depth;
  for (int i = at; i < NLOG; i++) { Event *e = &LOG[i]; if (e->thr != thr || e->depth != dep) continue;
    if (e->type == E_SYS_FORK) { sys = i; nsys++; }
    if (e->type == CB_pre_fork) npre++;
    if (e->type == E_CBEND && e->a == CB_pre_fork) pree = i;
    if (e->type == CB_post_fork) { npost++; post = i; }
    if (e->type == CB_init_process) { ninit++; init = i; }
    if (e->type == E_CBEND && e->a == CB_init_process) inite = i; }
  const char *P = real ? "C22" : "C07";
  CHECK(P, nsys == 1, "fork called the system's fork %d times", nsys);
  CHECK(P, r == LOG[sys].a, "fork returned %d, the system's returned %ld", r, LOG[sys].a);
  if (r < 0) CHECK(P, t->err == EAGAIN, "fork failed with errno %d, the system's had EAGAIN", t->err);
  if (real) CHECK(P, npre + npost + ninit == 0, "monitor_real_fork made callbacks");
  else {
    CHECK(P, npre == 1 && pree >= 0 && pree < sys, "%d pre-fork callbacks, or not before the fork", npre);
    if (W.proc == proc) {
      CHECK(P, npost == 1 && post > sys, "%d post-fork callbacks in the parent after the fork", npost);
      CHECK(P, LOG[post].a == LOG[sys].a, "monitor_post_fork got %ld, fork returned %ld", LOG[post].a, LOG[sys].a);
      CHECK(P, LOG[post].b == LOG[pree].b, "monitor_post_fork got data %#lx, monitor_pre_fork returned %#lx", LOG[post].b, LOG[pree].b);
      CHECK(P, ninit == 0, "monitor_init_process in the parent of a fork");
    } else {
      CHECK(P, npost == 0, "monitor_post_fork ran in the child");
      CHECK(P, ninit == 1 && init > sys && inite >= 0, "%d init-process callbacks in the child before fork returned", ninit);
      CHECK(P, LOG[init].c == LOG[pree].b, "monitor_init_process in the child got data %#lx, monitor_pre_fork returned %#lx", LOG[init].c, LOG[pree].b);
    }
  }
  if (W.proc != proc && sb) CHECK("C08", A.stack_bottom() == sb, "forked child: monitor_stack_bottom gives %p, in the parent it gave %p in that thread", A.stack_bottom(), sb);
  ev(E_APP_RES, OP_FORK, r);
  return r;
}
static void child_probe() {
  probe("forked child");
  CHECK("C08", A.is_threaded() == 0, "forked child: monitor_is_threaded before it has created a thread");
}
static void *cret(Spec *) { probe("thread of a forked child"); return nullptr; }
// what the child does; returns if its thread is to return
static void child_life(int depth) {
  Thr *t = cur();
  child_probe();
  switch (CK) {
  case C_EXIT: end_op(K_EXIT, 9); break;
  case C_UEXIT: end_op(K_UEXIT, 9); break;
  case C_RETURN: if (WHO != W_HANDLER) { t->exp_how = 1; t->exp_status = 0; } return;
  case C_JOINRET: { int k = app_create(K_CUSTOM, 0, cret); if (k >= 0) app_join(k, nullptr); probe("forked child after join"); if (WHO != W_HANDLER) { t->exp_how = 1; t->exp_status = 0; } return; }
  case C_PEXIT: end_op(K_PEXIT, 0); break;
  case C_EXEC: end_op(K_EXEC, 0); break;
  case C_SIG: end_op(K_ABORTSIG, 0); break;
  case C_CREATE: app_create(K_CUSTOM, 0, cret); end_op(K_EXIT, 9); break;
  case C_CREATEJOIN: { int k = app_create(K_CUSTOM, 0, cret); if (k >= 0) app_join(k, nullptr); probe("forked child after join"); end_op(K_EXIT, 9); break; }
  case C_RUN: app_create(K_COMPUTE, 0); end_op(K_EXIT, 9); break;
  case C_RACE: app_create(K_EXIT, 9); end_op(K_EXIT, 9); break;
  case C_FORK: if (depth < 2) { if (do_fork(0) == 0) { probe("grandchild"); end_op(K_EXIT, 8); } } end_op(K_EXIT, 9); break;
  }
}
static void parent_life() { }
static void *fork_body(Spec *s) { if (do_fork(REALF) == 0 && W.proc) child_life(1); return (void *)(long)s->status; }
static void fork_hook() { Thr *t = cur(); if (W.proc) return; int st = t->exp_status, how = t->exp_how; if (do_fork(0) == 0 && W.proc) { child_life(1); } t->exp_status = st; t->exp_how = how; }
// only in code of the application: not in a thread that monitor has not started yet or has already ended,
// nor inside pthread_create, which is not async-signal-safe and could not go on in the child
static bool in_create() { Thr *t = cur(); bool in = false; for (int i = 0; i < NLOG; i++) if (LOG[i].thr == t->id && LOG[i].a == OP_CREATE) { if (LOG[i].type == E_APP_OP) in = true; else if (LOG[i].type == E_APP_RES) in = false; } return in; }
static void fork_handler(int) { Thr *t = cur(); if (W.proc) return; if (t->id && (find_ev(0, E_APP_START, t->id) < 0 || find_ev(0, E_APP_END, t->id) >= 0)) return; if (in_create()) return; if (do_fork(0) == 0 && W.proc) child_life(1); }
static int fork_main(int, char **, char **) {
  for (int i = 0; i < NS; i++) app_create(SK[i], 20 + i);
  app_barrier(NS);
  if (WHO == W_BOTH) app_create(K_CUSTOM, 0, fork_body);
  if (WHO == W_MAIN || WHO == W_BOTH) { if (do_fork(REALF) == 0 && W.proc) { child_life(1); if (CK == C_RETURN || CK == C_JOINRET) { cur()->exp_status = 3; return 3; } } }
  else if (WHO == W_SIDE) app_create(K_CUSTOM, 0, fork_body);
  else if (WHO == W_IGNORED) { A.disable_new_threads(); app_create(K_CUSTOM, 0, fork_body); A.enable_new_threads(); }
  else if (WHO == W_HANDLER) { sigset_t m; sigemptyset(&m); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = fork_handler; A.sigaction(SIGUSR1, &sa, nullptr); spawn_env([](long) { env_kill_process(SIGUSR1, SI_USER, 0); }, 0); }
  Thr *t = cur();
  if (PK == 3) for (int i = 0; i < NS; i++) if (SK[i] == K_COMPUTE) PK = 1;
  switch (PK) { case 0: t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3; case 1: end_op(K_EXIT, 5); break; case 2: end_op(K_UEXIT, 5); break; case 3: end_op(K_PEXIT, 5); break; }
  return 3;
}
static void fork_finish() {
  check_all();
  // init-process once per child, before anything else of libmonitor or the application
  for (int p = 1; p < 8; p++) { int n = 0, f = -1; bool real = false; for (int i = 0; i < NLOG; i++) if (LOG[i].proc == p) { if (f < 0) { f = i; for (int j = i; j >= 0; j--) if (LOG[j].type == E_APP_OP && LOG[j].a == OP_FORK && LOG[j].thr == LOG[i].thr) { real = LOG[j].b; break; } } n += LOG[i].type == CB_init_process; }
    if (f >= 0 && !real && NLOG > f + 2) CHECK("C08", n == 1, "process %d: monitor_init_process ran %d times", p, n); }
}
EXPORT int sim_atexit(void (*f)(void));
static void common(int nkinds) { (void)nkinds; app_setup(); VF = 0; REALF = 0; PK = 0; NS = 0; CK = pick(C_KINDS); if (CK == C_SIG) AP.signo = SIGTERM; if (CK == C_RACE) AP.slow_fini_process = 5000000; }
static void s_fork0() { common(0); WHO = W_MAIN; VF = pick(2); O.fork_mode = 1; PK = pick(3); }
SCENARIO(fork0, s_fork0, fork_main, fork_finish, "a process without threads forks; parent and child go on in every way; fork fails")
static void s_fork1() { static const int sk[] = {K_RETURN, K_COMPUTE, K_CREATE, K_SHOOTNEVER, K_EXIT, K_UEXIT}; common(0); WHO = W_MAIN; NS = 1; SK[0] = sk[pick(N(sk))]; O.follow = 2; AP.sync = pick(3); }
SCENARIO(fork1, s_fork1, fork_main, fork_finish, "main forks while another thread starts, ends, creates threads or ends the process")
static void s_fork2() { static const int sk[] = {K_RETURN, K_COMPUTE, K_CREATE}; common(0); WHO = W_SIDE; NS = pick(2); if (NS) SK[0] = sk[pick(N(sk))]; PK = pick(4); O.follow = 2; }
SCENARIO(fork_side, s_fork2, fork_main, fork_finish, "a side thread forks, also while the process ends")
static void s_fork3() { common(0); WHO = W_IGNORED; NS = pick(2); SK[0] = K_RETURN; PK = pick(3); O.follow = 2; S.warn_ok = true; }
SCENARIO(fork_ignored, s_fork3, fork_main, fork_finish, "a thread that monitor ignores forks")
static void s_fork4() { common(0); WHO = W_ATEXIT; NS = pick(2); SK[0] = K_COMPUTE; PK = pick(2); sim_atexit(fork_hook); O.follow = 2; }
SCENARIO(fork_atexit, s_fork4, fork_main, fork_finish, "an exit handler forks after monitor_fini_process")
static void s_fork5() { common(0); WHO = W_HANDLER; NS = 1; static const int sk[] = {K_RETURN, K_CREATE, K_COMPUTE}; SK[0] = sk[pick(N(sk))]; PK = pick(2); O.follow = 2; if (CK == C_JOINRET) CK = C_RETURN; if ((SK[0] == K_COMPUTE && CK == C_RETURN) || CK == C_RUN || CK == C_RACE) CK = C_EXIT;   // a thread created in a handler inherits its mask, which blocks the shootdown signal
  }
SCENARIO(fork_handler, s_fork5, fork_main, fork_finish, "a signal handler forks at any time in any thread")
static void s_fork6() { common(0); WHO = W_SIDE; NS = 0; O.follow = 1; O.fork_mode = 0; PK = pick(3); VF = pick(2); }
SCENARIO(fork_parent, s_fork6, fork_main, fork_finish, "the parent goes on after a side thread forks")
static void s_fork7() { common(0); WHO = pick(2); REALF = 1; NS = pick(2); SK[0] = K_RETURN; PK = pick(2); O.fork_mode = 1; }
SCENARIO(fork_real, s_fork7, fork_main, fork_finish, "monitor_real_fork from any thread")
static void s_fork8() { static const int ck[] = {C_EXIT, C_UEXIT, C_RETURN, C_CREATEJOIN}; app_setup(); VF = pick(2); REALF = 0; NS = 0; CK = ck[pick(4)]; WHO = W_BOTH; PK = pick(2); O.fork_mode = 1; }
SCENARIO(fork_race, s_fork8, fork_main, fork_finish, "two threads fork at once")
// the client makes a helper process in one of its exit callbacks; the callbacks have had their turn, the helper does not get them again
static int CBW, CBK, CBP;
static void cb_fork(long, long) {
  if (W.proc) return;
  pid_t r = A.real_fork(); CBP = W.proc;
  if (r == 0 && W.proc) { if (CBK == 0) A.exit(9); if (CBK == 1) A._exit(9); if (CBK == 3) { static char *av[] = {(char *)"prog", nullptr}; A.execv("/bin/prog", av); } }
}
static int cbf_main(int, char **, char **) { if (NS) app_create(SK[0], 20); app_barrier(NS); end_op(PK ? K_UEXIT : K_EXIT, 5); return 0; }
static void cbf_finish() {
  if (!CBP) return;
  int nb = 0, nf = 0, nl = 0; for (int i = 0; i < NLOG; i++) { nb += LOG[i].type == CB_begin_process_exit; nf += LOG[i].type == CB_fini_process; nl += LOG[i].type == CB_fini_library; }
  CHECK("C22", nb <= 1 && nf <= 1 && nl <= 1, "the child of monitor_real_fork in an exit callback got the exit callbacks again (%d begin-process-exit, %d fini-process, %d fini-library)", nb, nf, nl);
  if (CBK == 3) CHECK("C22", W.end_kind == END_EXEC, "the child of monitor_real_fork in an exit callback did not run its program");
  else CHECK("C22", W.end_kind == END_EXIT && W.end_status == (CBK == 2 ? 5 : 9), "the child of monitor_real_fork in an exit callback ended with kind %d status %ld", W.end_kind, W.end_status);
}
static void s_cbf() {
  static const int cb[] = {CB_begin_process_exit, CB_fini_process, CB_fini_library}; static const int sk[] = {K_COMPUTE, K_RETURN, K_SHOOTNEVER};
  app_setup(); CBP = 0; CBW = cb[pick(O.dynamic ? 3 : 2)]; CBK = pick(4); PK = pick(2); NS = pick(2); if (NS) SK[0] = sk[pick(3)]; AP.sync = NS; H.in[CBW] = cb_fork; S.warn_ok = true;
}
SCENARIO(fork_cb, s_cbf, cbf_main, cbf_finish, "a callback at the end of the process makes a helper process with monitor_real_fork")
