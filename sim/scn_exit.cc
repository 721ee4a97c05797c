// Process exit: every way to start it, in every thread, against every thing other threads may be doing.
#include "app.h"
#include <string.h>

static int MK, NS, SK[3], DETACH;
static const int main_kinds[] = {K_RETURN, K_EXIT, K_UEXIT, K_UEXIT2, K_EXEC, K_ABORTSIG, K_FAULT, K_PEXIT, K_COMPUTE};
static const int side_kinds[] = {K_RETURN, K_PEXIT, K_COMPUTE, K_SLEEPER, K_SIGWAIT, K_BLOCKED, K_SHOOTBLOCK, K_SHOOTEND, K_SHOOTNEVER, K_BLOCKWAIT, K_CANCELED, K_EXIT, K_UEXIT, K_EXEC, K_ABORTSIG, K_CREATE};
#define N(a) ((int)(sizeof a / sizeof a[0]))
static bool endless(int k) { return k == K_READ || k == K_COMPUTE || k == K_SLEEPER || k == K_SIGWAIT || k == K_BLOCKED || k == K_SHOOTBLOCK || k == K_SHOOTNEVER || k == K_BLOCKWAIT; }
static bool blocks_forever(int k) { return k == K_BLOCKED || k == K_SHOOTNEVER; }

static void pick_kinds(const int *mks, int nm, const int *sks, int nsk, int n) {
  app_setup();
  MK = mks[pick(nm)]; NS = n;
  bool ends = kind_ends(MK) || MK == K_RETURN;
  int prev = 0;
  for (int i = 0; i < n; i++) { int k = prev + pick(nsk - prev); prev = k; SK[i] = sks[k]; if (kind_ends(SK[i])) ends = true; }
  // main's pthread_exit leaves the process to the other threads
  if (MK == K_PEXIT) { bool e = false, any = false; for (int i = 0; i < n; i++) { if (endless(SK[i]) || SK[i] == K_CANCELED) e = true; if (kind_ends(SK[i])) any = true; } (void)any; if (e) { prune(); return; } ends = true; }
  if (!ends) { prune(); return; }
  if (n) AP.sync = pick(3);
  if (AP.sync == 2 && MK == K_COMPUTE) { bool any = false; for (int i = 0; i < n; i++) any |= kind_ends(SK[i]); if (!any) { prune(); return; } }
}
static void do_main_kind() {
  Thr *t = cur();
  switch (MK) {
  case K_RETURN: t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return;
  case K_COMPUTE: app_compute(); return;
  default: end_op(MK, 5);
  }
}
static int exit_main(int, char **, char **) {
  int tid[4];
  for (int i = 0; i < NS; i++) tid[i] = app_create(SK[i], 20 + i);
  for (int i = 0; i < NS; i++) if (SK[i] == K_CANCELED && tid[i] >= 0) app_cancel(tid[i]);
  app_barrier(NS);
  do_main_kind();
  return 3;
}

static void s_exit0() { pick_kinds(main_kinds, N(main_kinds) - 1, side_kinds, 1, 0); }
SCENARIO(exit0, s_exit0, exit_main, check_all, "a process without threads ends in every way")
static void s_exit1() { pick_kinds(main_kinds, N(main_kinds), side_kinds, N(side_kinds), 1); }
SCENARIO(exit1, s_exit1, exit_main, check_all, "main and one thread, every pair of behaviours")
static const int mk2[] = {K_EXIT, K_PEXIT, K_COMPUTE, K_ABORTSIG};
static const int sk2[] = {K_RETURN, K_PEXIT, K_COMPUTE, K_SIGWAIT, K_SHOOTEND, K_CANCELED, K_EXIT, K_UEXIT};
static void s_exit2() { pick_kinds(mk2, N(mk2), sk2, N(sk2), 2); }
SCENARIO(exit2, s_exit2, exit_main, check_all, "main and two threads")
static const int mk3[] = {K_RETURN, K_EXIT, K_UEXIT, K_ABORTSIG, K_EXEC};
static const int sk3[] = {K_EXIT, K_UEXIT, K_EXEC, K_ABORTSIG};
static void s_race() { pick_kinds(mk3, N(mk3), sk3, N(sk3), 2); }
SCENARIO(exit_race, s_race, exit_main, check_all, "three threads end the process at the same time")

// slow callbacks: each callback may take longer than every time limit of the library
static void s_slow() {
  static const int m[] = {K_EXIT, K_UEXIT, K_COMPUTE}; static const int s[] = {K_RETURN, K_COMPUTE, K_SIGWAIT, K_CANCELED, K_SHOOTBLOCK, K_EXIT};
  pick_kinds(m, N(m), s, N(s), 1);
  u64 *w[] = {&AP.slow_begin, &AP.slow_fini_process, &AP.slow_fini_thread, &AP.slow_fini_library, &AP.slow_init_thread};
  int k = pick(5); static const u64 len[] = {1000000, 15000000, 60000000}; *w[k] = len[pick(3)];
  if (k == 4 && SK[0] == K_CANCELED) AP.sync = 0;   // it may never start
}
SCENARIO(exit_slow, s_slow, exit_main, check_all, "callbacks that take 1, 15 or 60 seconds")
// the application or the client ends the process again while it is ending
static void reexit() { if (cur()->exp_how) { cur()->exp_status = 88; A.exit(88); } }
EXPORT int sim_atexit(void (*f)(void));
static void s_re() {
  static const int m[] = {K_RETURN, K_EXIT, K_UEXIT, K_ABORTSIG, K_COMPUTE}; static const int s[] = {K_COMPUTE, K_RETURN, K_EXIT, K_UEXIT};
  pick_kinds(m, N(m), s, N(s), 1);
  AP.reenter = 1 + pick(3);
  if (AP.reenter == 3) sim_atexit(reexit);
}
SCENARIO(exit_again, s_re, exit_main, check_all, "exit is called again from a callback or exit handler")

// detached and joined threads: their identifiers die or are used again
static int detach_main(int, char **, char **) {
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  int n = NS; for (int i = 0; i < n; i++) app_create(SK[i], 20 + i, nullptr, DETACH & (1 << i) ? &a : nullptr);
  pthread_attr_destroy(&a);
  app_barrier(NS);
  do_main_kind();
  return 3;
}
static void s_detach() {
  static const int m[] = {K_EXIT, K_UEXIT, K_COMPUTE}; static const int s[] = {K_RETURN, K_PEXIT, K_SHOOTEND, K_COMPUTE, K_EXIT};
  pick_kinds(m, N(m), s, N(s), 2); DETACH = 3;
}
SCENARIO(exit_detached, s_detach, detach_main, check_all, "the process ends while detached threads end")
static void s_detach1() {
  static const int m[] = {K_RETURN, K_EXIT, K_UEXIT, K_EXEC, K_COMPUTE}; 
  pick_kinds(m, N(m), side_kinds, N(side_kinds), 1); DETACH = 1;
}
SCENARIO(exit_detached1, s_detach1, detach_main, check_all, "the process ends while one detached thread does anything")
static void *joiner(Spec *s) { app_join((int)s->x, nullptr); app_create(K_RETURN, 30); return (void *)40; }
static int join_main(int, char **, char **) {
  int t = app_create(SK[0], 20);
  app_create(K_CUSTOM, 21, joiner, nullptr, t);
  app_barrier(2);
  do_main_kind();
  return 3;
}
static void s_join() {
  static const int m[] = {K_RETURN, K_EXIT, K_UEXIT}; static const int s[] = {K_RETURN, K_PEXIT, K_SHOOTEND};
  pick_kinds(m, N(m), s, N(s), 1);
}
SCENARIO(exit_joined, s_join, join_main, check_all, "the process ends while a thread joins another one and creates a third")
// cancellation may strike while a thread ends by itself or in its callbacks
static int cancel_main(int, char **, char **) {
  int t = app_create(SK[0], 20);
  app_barrier(1);
  app_cancel(t);
  if (SK[1]) app_join(t, nullptr);
  do_main_kind();
  return 3;
}
static void s_cancel() {
  static const int m[] = {K_RETURN, K_EXIT, K_PEXIT}; static const int s[] = {K_RETURN, K_PEXIT, K_CANCELED, K_CREATE, K_SIGWAIT};
  app_setup(); NS = 1; MK = m[pick(3)]; SK[0] = s[pick(N(s))]; SK[1] = pick(2); AP.sync = pick(2);
  int k = pick(4); static const u64 len[] = {1000, 15000000};
  if (k == 1) AP.slow_fini_thread = len[pick(2)];
  if (k == 2) AP.slow_init_thread = len[pick(2)];
  if (k == 3) { AP.slow_fini_thread = 5000000; AP.slow_begin = 1000; }
}
SCENARIO(exit_cancel, s_cancel, cancel_main, check_all, "a thread is cancelled at any time, also in its callbacks")
// the same for a thread that may be cancelled at any instruction of its own, also when the shootdown signal has just arrived there
static void *async_thr(Spec *s) { cur()->cancel_async = true; app_compute(true); return (void *)(long)s->status; }
static int acancel_main(int, char **, char **) {
  int t = app_create(K_CUSTOM, 20, async_thr); int u = SK[1] ? app_create(SK[1], 21) : -1; (void)u;
  app_barrier(1 + (SK[1] != 0));
  if (SK[2]) spawn_env([](long t) { app_cancel((int)t); }, t); else app_cancel(t);
  do_main_kind();
  return 3;
}
static void s_acancel() {
  static const int m[] = {K_RETURN, K_EXIT, K_UEXIT}; static const int s[] = {0, K_COMPUTE, K_EXIT};
  app_setup(); NS = 1; MK = m[pick(3)]; SK[1] = s[pick(3)]; SK[2] = pick(2); AP.sync = 1;
  if (pick(2)) AP.slow_fini_thread = 1000;
}
SCENARIO(exit_acancel, s_acancel, acancel_main, check_all, "a thread with asynchronous cancellation is cancelled while the process ends")
// the thread that is cancelled is itself ending the process
static int xcancel_main(int, char **, char **) {
  int t = app_create(SK[0], 20); for (int i = 1; i < NS; i++) app_create(K_COMPUTE, 20 + i);
  spawn_env([](long t) { app_cancel((int)t); }, t);
  app_barrier(NS);
  if (MK == K_COMPUTE) app_compute(); do_main_kind();
  return 3;
}
static void s_xcancel() {
  static const int m[] = {K_COMPUTE, K_EXIT, K_UEXIT}; static const int s[] = {K_EXIT, K_UEXIT, K_EXEC};
  app_setup(); NS = 1 + pick(2); MK = m[pick(3)]; SK[0] = s[pick(3)]; AP.sync = 1;
}
SCENARIO(exit_xcancel, s_xcancel, xcancel_main, check_all, "a thread that is ending the process is cancelled")
// the client ends the process inside a thread's fini callback; the other threads still get theirs
static int IFK; static bool IFDONE;
static void infini(long, long) { if (cur()->id != 1 || IFDONE) return; IFDONE = true; cur()->exp_how = 1; cur()->exp_status = 77; ev(E_APP_OP, OP_EXIT, IFK); if (IFK == K_EXIT) A.exit(77); else A._exit(77); }
static int infini_main(int, char **, char **) {
  for (int i = 0; i < NS; i++) app_create(SK[i], 20 + i);
  app_barrier(NS);
  if (MK == K_COMPUTE) app_compute(); do_main_kind();
  return 3;
}
static void infini_finish() {
  int nb = 0, nf = 0, fp = -1; for (int i = 0; i < NLOG; i++) { nb += LOG[i].type == CB_begin_process_exit; if (LOG[i].type == CB_fini_process) { nf++; fp = i; } }
  CHECK("C01", nb == 1 && nf == 1, "exit in monitor_fini_thread: %d begin-process-exit and %d fini-process callbacks", nb, nf);
  CHECK("C01", W.end_kind == END_EXIT && (W.end_status == 77 || (MK != K_COMPUTE && W.end_status == W.thr[0].exp_status)), "exit in monitor_fini_thread: the process ended with kind %d status %ld", W.end_kind, W.end_status);
  for (int t = 2; t < W.nthr; t++) if (!W.thr[t].env && find_ev(0, E_APP_START, t, 0) >= 0) {
    int n = 0, e = -1; for (int i = 0; i < NLOG; i++) if (LOG[i].thr == t) { n += LOG[i].type == CB_fini_thread; if (LOG[i].type == E_CBEND && LOG[i].a == CB_fini_thread) e = i; }
    CHECK("C02", n == 1 && e >= 0 && e < fp, "exit in another thread's monitor_fini_thread: T%d got %d fini-thread callbacks, or not before monitor_fini_process", t, n);
  }
}
static void s_infini() {
  static const int m[] = {K_COMPUTE, K_EXIT, K_UEXIT}; static const int s[] = {K_RETURN, K_COMPUTE}; static const int o[] = {K_COMPUTE, K_RETURN, K_SIGWAIT};
  app_setup(); MK = m[pick(3)]; NS = 1 + pick(2); SK[0] = MK == K_COMPUTE ? K_RETURN : s[pick(2)]; if (NS > 1) SK[1] = o[pick(3)]; IFK = pick(2) ? K_EXIT : K_UEXIT; IFDONE = false; AP.sync = 1; H.in[CB_fini_thread] = infini;
}
SCENARIO(exit_infini, s_infini, infini_main, infini_finish, "the client ends the process inside monitor_fini_thread")
// a signal from outside ends the process at any time
static void killer(long sig) { env_kill_process((int)sig, SI_USER, 0); }
static int killed_main(int, char **, char **) {
  spawn_env(killer, AP.signo);
  for (int i = 0; i < NS; i++) app_create(SK[i], 20 + i);
  app_barrier(NS);
  if (MK != K_COMPUTE) do_main_kind(); else app_compute();
  return 3;
}
static void s_killed_any() {
  static const int s[] = {K_RETURN, K_PEXIT, K_COMPUTE, K_CREATE, K_EXIT};
  app_setup(); static const int m[] = {K_COMPUTE, K_EXIT, K_RETURN}; MK = m[pick(3)]; NS = 1; SK[0] = s[pick(N(s))]; AP.async_sig = true; AP.sync = pick(2);
}
SCENARIO(exit_killed, s_killed_any, killed_main, check_all, "SIGTERM comes from outside at any time")

// threads answer late: each answer gives the others another ten seconds
static int UB[3];
static int late_main(int, char **, char **) {
  for (int i = 0; i < NS; i++) app_create(SK[i], 20 + i, nullptr, nullptr, UB[i]);
  app_barrier(NS);
  do_main_kind();
  return 3;
}
static void s_late() {
  static const int m[] = {K_RETURN, K_EXIT, K_UEXIT, K_EXEC}; static const int ub[] = {0, 1, 5, 8, 9, 12, 16, 25};
  app_setup(); MK = m[pick(4)]; NS = 1 + pick(2); AP.sync = 1; int prev = 0; O.delay = true; O.early_wake = false;
  for (int i = 0; i < NS; i++) { SK[i] = K_UNBLOCK; int k = prev + pick(8 - prev); prev = k; UB[i] = ub[k]; }
}
SCENARIO(exit_late, s_late, late_main, check_all, "one or two threads hold the notification back for up to 25 seconds")
// a thread ends with the notification blocked while exit waits for another one
static void s_endblocked() {
  static const int m[] = {K_RETURN, K_EXIT, K_UEXIT}; static const int o[] = {K_ENDBLOCKED, K_UNBLOCK, K_COMPUTE, K_RETURN};
  app_setup(); MK = m[pick(3)]; NS = 2; SK[0] = K_ENDBLOCKED; SK[1] = o[pick(4)]; UB[0] = 0; UB[1] = 1 + pick(2); AP.sync = 1; DETACH = pick(4);
}
static int endblocked_main(int, char **, char **) {
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  for (int i = 0; i < NS; i++) app_create(SK[i], 20 + i, nullptr, DETACH & (1 << i) ? &a : nullptr, UB[i]);
  pthread_attr_destroy(&a);
  app_barrier(NS);
  do_main_kind();
  return 3;
}
SCENARIO(exit_endblocked, s_endblocked, endblocked_main, check_all, "a thread ends with the notification blocked during process exit")
// threads are created during process exit
static void late_create() { int k = app_create(K_RETURN, 60); if (k >= 0 && SK[2]) app_join(k, nullptr); }
static void s_latecreate() {
  static const int m[] = {K_RETURN, K_EXIT, K_COMPUTE}; static const int o[] = {K_COMPUTE, K_RETURN, K_CREATE, K_EXIT};
  app_setup(); MK = m[pick(3)]; NS = pick(2); if (NS) SK[0] = o[pick(4)]; SK[2] = pick(2); AP.sync = NS ? pick(3) : 0;
  if (MK == K_COMPUTE && (!NS || SK[0] != K_EXIT)) { prune(); return; }
  sim_atexit(late_create);
}
SCENARIO(exit_create, s_latecreate, exit_main, check_all, "an exit handler creates a thread")
// blocked in a system call that is restarted after signals
static void s_read() {
  static const int m[] = {K_RETURN, K_EXIT, K_UEXIT, K_EXEC, K_COMPUTE}; static const int s[] = {K_READ, K_EXIT};
  pick_kinds(m, N(m), s, N(s), 2); if (SK[0] != K_READ) { prune(); return; }
}
SCENARIO(exit_read, s_read, exit_main, check_all, "threads blocked in a restartable system call")
