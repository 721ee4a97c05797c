// process start (C15) and broadcast (C21)
#include "app.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
EXPORT int sim_main(int, char **, char **);
#define N(a) ((int)(sizeof a / sizeof a[0]))

// ---------------------------------------------------------------- process start
enum { I_NONE, I_CREATE, I_INIT, I_FORK, I_DLOPEN, I_MASK, I_SIGACT, I_EXITHOOK, I_SYSTEM, I_KINDS };
static int NI, IOP[3], INMAIN, SMI, ENDK, STATUS, CHILD; static char *ARGS[4]; static bool STARTED;
static void *init_body(Spec *s) { if (s->x) A.initialize(); return nullptr; }
static void on_start_main(long, long) {
  CHECK("C15", A.get_addr_main() == (void *)sim_main, "monitor_get_addr_main gives %p in monitor_start_main_init, the application's main is %p", A.get_addr_main(), (void *)sim_main);
  if (SMI == 1) A.initialize();
  if (SMI == 2) app_create(K_CUSTOM, 0, init_body, nullptr, 1);
}
static void on_any(long, long) { A.initialize(); }
static void ctor_op(int op) {
  switch (op) {
  case I_CREATE: { int k = app_create(K_CUSTOM, 0, init_body, nullptr, 1); if (INMAIN && k >= 0) app_join(k, nullptr); break; }
  case I_INIT: ev(E_APP_OP, OP_MISC, 500); A.initialize(); break;
  case I_FORK: {
    int at = NLOG; ev(E_APP_OP, OP_FORK, 0); pid_t r = A.fork(); int np = 0, npo = 0, ni = 0; long tok = 0, got = 0;
    for (int i = at; i < NLOG; i++) { np += LOG[i].type == CB_pre_fork; npo += LOG[i].type == CB_post_fork; if (LOG[i].type == CB_init_process) { ni++; got = LOG[i].c; } if (LOG[i].type == E_CBEND && LOG[i].a == CB_pre_fork) tok = LOG[i].b; }
    CHECK("C07", np == 1, "fork before main gave %d pre-fork callbacks", np);
    if (r == 0) CHECK("C07", npo == 0 && ni == 1 && got == tok, "the child of a fork before main got %d init-process and %d post-fork callbacks", ni, npo); else CHECK("C07", npo == 1 && ni == 0, "the parent of a fork before main got %d init-process and %d post-fork callbacks", ni, npo);
    break; }
  case I_DLOPEN: A.dlopen("libz.so", 1); break;
  case I_MASK: { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGUSR1); A.sigprocmask(SIG_BLOCK, &s, nullptr); A.pthread_sigmask(SIG_UNBLOCK, &s, nullptr); break; }
  case I_SIGACT: { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_IGN; A.sigaction(SIGUSR1, &sa, nullptr); A.m_sigaction(SIGUSR2, [](int, siginfo_t *, void *) { return 0; }, 0, nullptr); break; }
  case I_SYSTEM: A.real_sigprocmask(SIG_BLOCK, nullptr, nullptr); A.get_thread_num(); A.get_user_data(); A.is_threaded(); A.stack_bottom(); A.block_shootdown(); A.unblock_shootdown(); break;
  }
}
static int start_main(int argc, char **argv, char **envp) {
  ev(E_APP_MAIN, argc, (long)argv, (long)envp);
  CHECK("C15", argc == O.argc && argv == O.argv, "main gets argc %d argv %p, the system passed %d %p", argc, (void *)argv, O.argc, (void *)O.argv);
  for (int i = 0; i < argc; i++) CHECK("C15", argv[i] == ARGS[i], "argv[%d] of main has changed", i);
  CHECK("C15", !argv[argc], "argv of main does not end");
  CHECK("C15", envp == O.envp, "main gets the environment %p, the system passed %p", (void *)envp, (void *)O.envp);
  CHECK("C15", A.get_addr_main() == (void *)sim_main, "monitor_get_addr_main gives %p in main", A.get_addr_main());
  app_point();
  if (INMAIN) { A.initialize(); if (INMAIN == 2) app_create(K_CUSTOM, 0, init_body, nullptr, 1); }
  Thr *t = cur(); t->exp_how = 1; t->exp_status = STATUS;
  if (ENDK) end_op(ENDK == 1 ? K_EXIT : K_UEXIT, STATUS);
  ev(E_APP_OP, OP_EXIT, K_RETURN); return STATUS;
}
static void start_finish() {
  check_all();
  int np = 1; for (int i = 0; i < NLOG; i++) if (LOG[i].proc >= np) np = LOG[i].proc + 1;
  int nl = count_ev(CB_init_library);
  CHECK("C15", nl == 1, "monitor_init_library ran %d times", nl);
  int lib = find_ev(0, CB_init_library), libe = -1;
  for (int i = 0; i < NLOG; i++) {
    if (LOG[i].type == E_CBEND && LOG[i].a == CB_init_library) libe = i;
    if ((LOG[i].type >= CB_init_process && LOG[i].type <= CB_reset_stacksize) && LOG[i].type != CB_start_main_init && LOG[i].type != CB_pre_fork && LOG[i].type != CB_post_fork)
      CHECK("C15", lib >= 0 && lib < i && (SMI == 3 || (libe >= 0 && libe < i)), "%s before monitor_init_library had returned", evname(LOG[i].type));
  }
  int nsm = count_ev(CB_start_main_init), nat = count_ev(CB_at_main), nm = count_ev(E_APP_MAIN);
  int mainproc = nm ? LOG[find_ev(0, E_APP_MAIN)].proc : -1;
  CHECK("C15", nsm == 1, "monitor_start_main_init ran %d times", nsm);
  CHECK("C15", nat == 1 && nm == 1, "monitor_at_main ran %d times, main %d times", nat, nm);
  int at = find_ev(0, CB_at_main), ate = -1, mn = find_ev(0, E_APP_MAIN), sm = find_ev(0, CB_start_main_init);
  for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_CBEND && LOG[i].a == CB_at_main) ate = i;
  CHECK("C15", sm < at && ate >= 0 && ate < mn, "monitor_start_main_init, monitor_at_main and main do not come in this order");
  for (int i = ate + 1; i < mn; i++) CHECK("C15", LOG[i].thr != 0 || LOG[i].type == CB_wrap_main || (LOG[i].type == E_CBEND && LOG[i].a == CB_wrap_main), "%s between monitor_at_main and main", evname(LOG[i].type));
  CHECK("C15", LOG[at].proc == mainproc && LOG[at].thr == 0, "monitor_at_main ran elsewhere");
  for (int p = 0; p < np; p++) {
    int n = 0, k = -1, e = -1; for (int i = 0; i < NLOG; i++) if (LOG[i].proc == p) { if (LOG[i].type == CB_init_process) { n++; k = i; } if (LOG[i].type == E_CBEND && LOG[i].a == CB_init_process) e = i; }
    if (p < mainproc) { CHECK("C15", n <= 1, "process %d: monitor_init_process ran %d times", p, n); continue; }
    CHECK("C15", n == 1, "process %d: monitor_init_process ran %d times", p, n);
    CHECK("C15", e >= 0 && e < at, "monitor_at_main before monitor_init_process had returned");
    bool u2 = false, sme = false; for (int i = 0; i < k; i++) { u2 |= LOG[i].type == E_USER && LOG[i].a == 2; sme |= LOG[i].type == E_CBEND && LOG[i].a == CB_start_main_init; }
    if (u2 && sme) CHECK("C15", (LOG[k].a == O.argc || (p > 0 && SMI == 6)) && LOG[k].b == (long)O.argv, "monitor_init_process gets argc %ld and argv %#lx, the application's are %d and %p", LOG[k].a, LOG[k].b, O.argc, (void *)O.argv);
    else CHECK("C15", (LOG[k].a == 0 || (p > 0 && SMI == 6)) && LOG[k].b == 0, "monitor_init_process before main gets argc %ld and argv %#lx, it should be empty", LOG[k].a, LOG[k].b);
  }
  if (!FAILED && mainproc >= 0 && W.end_kind == END_EXIT) CHECK("C15", W.end_status == (STATUS & 0xff), "main returned %d but the process ended with status %ld", STATUS, W.end_status);
}
static void s_start() {
  app_setup(); static const int ac[] = {3, 1, 0}; O.argc = ac[pick(3)]; static const char *names[] = {"app", "", "a b"};
  for (int i = 0; i < O.argc; i++) ARGS[i] = (char *)names[i]; ARGS[O.argc] = nullptr; O.argv = ARGS;
  NI = pick(3); for (int i = 0; i < NI; i++) IOP[i] = 1 + pick(I_KINDS - 1);
  INMAIN = pick(3); SMI = pick(7); if (SMI == 6) H.new_argc = 1 + pick(2); ENDK = pick(3); static const int st[] = {0, 7, 255}; STATUS = st[pick(3)];
  O.preload_ctor = pick(2); O.files[O.nfiles++] = {"/bin/sh", 1};
  H.in[CB_start_main_init] = on_start_main; if (SMI >= 3 && SMI <= 5) H.in[SMI == 3 ? CB_init_library : SMI == 4 ? CB_init_process : CB_at_main] = on_any;
  S.app_init = [] { ev(E_USER, 1); for (int i = 0; i < NI; i++) ctor_op(IOP[i]); ev(E_USER, 2); };
  if (!NI) S.app_init = [] { ev(E_USER, 2); };
}
SCENARIO(start, s_start, start_main, start_finish, "process start: every sequence of up to two first entries in constructors, in monitor_start_main_init and in main, library constructor first or last, every argument list and way to end")

// ---------------------------------------------------------------- broadcast
enum { OPB = 77 };
static int BSIG = SIGUSR1;
static int BK[3], NB, CALLER, QUIET, BTWICE;
static void do_bc() {
  bool exiting = W.sv[SV_EXITING]; if (exiting) return;
  Thr *t = cur(); u64 m = t->mask; ev(E_APP_OP, OPB, 0); int nw = t->nowait; t->nowait = t->depth + 1; int r = A.broadcast_signal(BSIG); t->nowait = nw; ev(E_APP_RES, OPB, r);
  CHECK("C21", t->mask == m, "monitor_broadcast_signal (result %d) leaves the signal mask %#lx, it was %#lx", r, (long)t->mask, (long)m);
}
static void bc_recv(int s) { ev(E_APP_HANDLER, s); }
static void *bc_body(Spec *s) { if (CALLER == 4) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR2); A.pthread_sigmask(SIG_BLOCK, &m, nullptr); } do_bc(); if (s->x) do_bc(); return nullptr; }
static int bc_client(int, siginfo_t *, void *) { ev(E_CLIENT_HANDLER, 0); if (!W.proc || true) do_bc(); return 0; }
static int bc_main(int, char **, char **) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = bc_recv; A.sigaction(BSIG, &sa, nullptr);
  if (CALLER == 2) { A.m_sigaction(SIGPROF, bc_client, 0, nullptr); spawn_env([](long) { env_kill_process(SIGPROF, SI_USER, 0); }, 0); }
  if (CALLER == 0 && BTWICE) do_bc();
  for (int i = 0; i < NB; i++) { if (BK[i] < 0) { A.disable_new_threads(); app_create(K_COMPUTE, 20 + i); A.enable_new_threads(); } else app_create(BK[i], 20 + i); }
  if (QUIET) app_barrier(NB);
  if (CALLER == 0) { do_bc(); if (BTWICE) do_bc(); }
  if (CALLER == 1) { int k = app_create(K_CUSTOM, 0, bc_body, nullptr, BTWICE); if (QUIET && k >= 0) app_join(k, nullptr); else { int k2 = app_create(K_RETURN, 0); (void)k2; } }
  if (CALLER == 2) { app_sleep(1000); }
  if (CALLER == 4) { int k = app_create(K_CUSTOM, 0, bc_body, nullptr, BTWICE); do_bc(); if (k >= 0) app_join(k, nullptr); }
  if (CALLER == 3) { // a forked child
    do_bc(); ev(E_APP_OP, OP_FORK, 0); if (A.fork() == 0) { ev(E_APP_RES, OP_FORK, 0); do_bc(); if (BTWICE) { app_create(K_COMPUTE, 30); do_bc(); } end_op(K_EXIT, 6); } ev(E_APP_RES, OP_FORK, 1); do_bc(); }
  end_op(K_EXIT, 5); return 0;
}
static void bc_finish() {
  check_all();
  bool ign[MAXTHR] = {0}; int crp[MAXTHR]; for (int t = 0; t < MAXTHR; t++) crp[t] = -1;
  for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_SYS_CREATE && LOG[i].b == 0) { crp[LOG[i].a] = LOG[i].proc; bool pre = false; for (int j = i - 1; j >= 0; j--) if (LOG[j].thr == LOG[i].thr) { if (LOG[j].type == E_CBEND && LOG[j].a == CB_thread_pre_create) { pre = LOG[j].b != -1; break; } if (LOG[j].type == E_APP_OP && LOG[j].a == OP_CREATE) break; } ign[LOG[i].a] = !pre; }
  for (int i = 0; i < NLOG; i++) {
    if (LOG[i].type == E_SYS_KILL && LOG[i].b == BSIG) { bool in = false; for (int j = i - 1; j >= 0 && !in; j--) if (LOG[j].thr == LOG[i].thr && LOG[j].proc == LOG[i].proc && LOG[j].depth == LOG[i].depth) { if (LOG[j].type == E_APP_RES && LOG[j].a == OPB) break; if (LOG[j].type == E_APP_OP && LOG[j].a == OPB) in = true; }
      CHECK("C21", in, "signal %d sent outside monitor_broadcast_signal", BSIG); }
    if (LOG[i].type != E_APP_OP || LOG[i].a != OPB) continue;
    int t = LOG[i].thr, d = LOG[i].depth, p = LOG[i].proc, j, n[MAXTHR] = {0}; long r = -99; bool ex = false, used = false;
    for (int k = 0; k < i; k++) if (LOG[k].proc == p && LOG[k].type == E_APP_OP && LOG[k].a == OP_CREATE) used = true;
    for (j = i + 1; j < NLOG; j++) {
      if (LOG[j].proc != p) break;
      if (LOG[j].type == CB_begin_process_exit) ex = true;
      if (LOG[j].thr != t || LOG[j].depth != d) { if (LOG[j].type == E_APP_OP && LOG[j].a == OP_CREATE) used = true; continue; }
      if (LOG[j].type == E_APP_RES && LOG[j].a == OPB) { r = LOG[j].b; break; }
      if (LOG[j].type == E_SYS_KILL && LOG[j].b == BSIG) {
        int u = LOG[j].a; n[u]++;
        int gone = find_ev(0, E_THR_GONE, u); CHECK("C21", gone < 0 || gone > j, "broadcast signals T%d, which has ended", u);
        CHECK("C21", u != t, "broadcast signals the calling thread T%d", t);
        bool mt = p == 0 ? u == 0 : u == W.fork_thr[p]; int ie = -1, fb = -1; for (int k = 0; k < NLOG; k++) if (LOG[k].thr == u && LOG[k].proc == p) { if (LOG[k].type == E_CBEND && LOG[k].a == CB_init_thread) ie = k; if (LOG[k].type == CB_fini_thread && fb < 0) fb = k; }
        if (!mt) CHECK("C21", ie >= 0 && ie < j, "broadcast signals T%d, whose monitor_init_thread has not returned", u);
        if (!mt) CHECK("C21", fb < 0 || fb > i, "broadcast signals T%d, whose monitor_fini_thread had begun before", u);
        CHECK("C21", !ign[u], "broadcast signals the ignored thread T%d", u);
        CHECK("C21", p == 0 || crp[u] == p || u == W.fork_thr[p], "broadcast in process %d signals T%d of another process", p, u);
      }
    }
    for (int k = 0; k < i; k++) if (LOG[k].type == CB_begin_process_exit && LOG[k].proc == p) ex = true;
    if (r == -99 || ex) continue;
    CHECK("C21", r == 0 || r == -1, "monitor_broadcast_signal returned %ld", r);
    if (!used) { CHECK("C21", r == 0, "monitor_broadcast_signal in a process without threads returned %ld", r); for (int u = 0; u < W.nthr; u++) CHECK("C21", n[u] == 0, "monitor_broadcast_signal in a process without threads signals T%d", u); continue; }
    for (int u = 0; u < W.nthr; u++) {
      if (W.thr[u].env || u == t) continue;
      if (r == -1) { CHECK("C21", n[u] == 0, "monitor_broadcast_signal failed but signalled T%d", u); continue; }
      CHECK("C21", n[u] <= 1, "one broadcast signalled T%d %d times", u, n[u]);
      int st = find_ev(0, E_APP_START, u, p), ae = find_ev(0, E_APP_END, u, p);
      bool mainthr = p == 0 ? u == 0 : u == W.fork_thr[p];
      if (mainthr || (!ign[u] && crp[u] == p && st >= 0 && st < i && (ae < 0 || ae > j)))
        CHECK("C21", n[u] == 1, "monitor_broadcast_signal returned 0 but did not signal %sT%d, which was running", mainthr ? "the main thread " : "", u);
    }
    if (QUIET && r != 0) fail("C21", "monitor_broadcast_signal failed although no thread was starting or ending");
  }
}
static void s_bc() {
  static const int k[] = {K_RETURN, K_COMPUTE, K_PEXIT, K_CREATE, K_SHOOTEND, -1};
  app_setup(); NB = PARAM ? PARAM : pick(2); for (int i = 0; i < NB; i++) BK[i] = k[pick(N(k))]; CALLER = pick(3); BTWICE = pick(2); QUIET = 0; S.deadkill_prop = "C21";
}
SCENARIO(bc, s_bc, bc_main, bc_finish, "broadcast from main, a thread or a signal handler while threads start, run, create, end")
static void s_bcq() { app_setup(); NB = pick(4); for (int i = 0; i < NB; i++) BK[i] = pick(2) ? -1 : K_COMPUTE; CALLER = pick(2); BTWICE = pick(2); QUIET = 1; AP.sync = 1; S.deadkill_prop = "C21"; if (CALLER) BTWICE = 0; }
SCENARIO(bc_quiet, s_bcq, bc_main, bc_finish, "broadcast while every other thread just computes: succeeds and reaches all")
// a fatal signal comes at any time, also inside the broadcast
static int bck_main(int, char **, char **) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = bc_recv; A.sigaction(BSIG, &sa, nullptr);
  if (NB) app_create(BK[0], 20); app_barrier(NB);
  spawn_env([](long) { env_kill_process(SIGTERM, SI_USER, 0); }, 0);
  do_bc(); do_bc(); end_op(K_EXIT, 5); return 0;
}
static void s_bck() { app_setup(); NB = 1; static const int k[] = {K_RETURN, K_COMPUTE}; BK[0] = k[pick(2)]; AP.sync = pick(2); QUIET = 0; CALLER = 0; AP.async_sig = true; S.deadkill_prop = "C21"; }
SCENARIO(bc_killed, s_bck, bck_main, check_all, "a fatal signal comes from outside while a thread broadcasts")
static void s_bcf() { app_setup(); NB = pick(3); for (int i = 0; i < NB; i++) BK[i] = pick(2) ? K_COMPUTE : K_RETURN; CALLER = 3; BTWICE = pick(2); QUIET = 0; S.deadkill_prop = "C21"; }
SCENARIO(bc_fork, s_bcf, bc_main, bc_finish, "broadcast before a fork, and after it in parent and child")
static void s_bcr() { app_setup(); NB = pick(2); for (int i = 0; i < NB; i++) BK[i] = pick(2) ? K_COMPUTE : -1; CALLER = 4; BTWICE = pick(2); QUIET = 0; S.deadkill_prop = "C21"; }
SCENARIO(bc_race, s_bcr, bc_main, bc_finish, "two threads broadcast at once")
