// Signal actions, default effects, masks, the sigwait family and the shootdown signal.
#include "app.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
EXPORT int sim_raise(int sig);
EXPORT int sim_sigaction(int, const struct sigaction *, struct sigaction *);
#define NEL(a) ((int)(sizeof a / sizeof a[0]))
static const u64 NOMASK = sbit(SIGKILL) | sbit(SIGSTOP) | sbit(32) | sbit(33);
static bool noterm(int s) { return s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH; }
static bool stops(int s) { return s == SIGTSTP || s == SIGTTIN || s == SIGTTOU; }
static bool bad_sig(int s) { return s <= 0 || s > 64 || s == 32 || s == 33; }

// ---------------------------------------------------------------- documented choice of the shootdown signal
extern int CFG_SHOOT; extern const char *CFG_CLIENT;     // how the library was configured (command line)
static u64 reserved() { u64 m = 0; const char *p = CFG_CLIENT; while (p && *p) { char *e; long v = strtol(p, &e, 10); if (e == p) { p++; continue; } if (v > 0 && v <= 64) m |= sbit(v); p = e; } return m; }
static bool usable(long v) { return v > 0 && v <= 64 && v != 32 && v != 33 && v != SIGKILL && v != SIGSTOP && !stops(v); }
static int doc_shootdown(const char *env) {
  u64 r = reserved();
  if (env) { char *e; long v = strtol(env, &e, 10); if (e != env && usable(v)) return v; }
  if (usable(CFG_SHOOT)) return CFG_SHOOT;
  for (int s = 42; s <= 56; s++) if (!(r & sbit(s))) return s;
  static const int x[] = {SIGUSR2, SIGUSR1, SIGPWR, SIGURG, SIGPIPE};
  for (int s : x) if (!(r & sbit(s))) return s;
  return SIGWINCH;
}

// ---------------------------------------------------------------- reference model of actions
enum { CL_NONE, CL_ACCEPT, CL_PASS, CL_PASSNEG, CL_PASSOFF };
struct Act { void *h; int flags; u64 mask; bool by_signal; };
static Act M[NSIGS]; static int CLM[NSIGS]; static u64 CLSET, DONTCARE[NSIGS], EXPBLK[NSIGS]; static int SHOOT, PSIG; static u64 CALLMASK;
static int NCALL[8], NCLIENT; static int EXPCODE, EXPVAL; static long CLMASKBAD;
static bool FATAL_ENDS;
static void reset_model() {
  memset(M, 0, sizeof M); memset(CLM, 0, sizeof CLM); memset(DONTCARE, 0, sizeof DONTCARE); memset(EXPBLK, 0, sizeof EXPBLK);
  memset(NCALL, 0, sizeof NCALL); NCLIENT = 0; SHOOT = doc_shootdown(nullptr); CLSET = reserved() | sbit(SHOOT); CLMASKBAD = 0; FATAL_ENDS = false;
}
static void in_handler(int which, int sig, siginfo_t *si, void *uc) {
  Thr *t = cur();
  NCALL[which]++; ev(E_APP_HANDLER, which, sig);
  CHECK("C11", sig == PSIG, "the application's handler got signal %d, sent was %d", sig, PSIG);
  if (which >= 4) {
    CHECK("C11", si && uc, "the handler asked for siginfo but got %p and context %p", (void *)si, uc);
    CHECK("C11", si->si_signo == sig && si->si_code == EXPCODE && si->si_value.sival_int == EXPVAL, "the handler got siginfo signo %d code %d value %d, sent was %d %d %d", si->si_signo, si->si_code, si->si_value.sival_int, sig, EXPCODE, EXPVAL);
  }
  u64 want = (CALLMASK | (M[sig].mask & ~EXPBLK[sig]) | sbit(SHOOT)) & ~NOMASK; if (!(M[sig].flags & SA_NODEFER)) want |= sbit(sig);
  u64 got = t->mask & ~NOMASK, dc = DONTCARE[sig] | (M[sig].by_signal ? sbit(sig) : 0);
  CHECK("C11", (got & ~dc) == (want & ~dc), "signal %d: the handler runs with mask %#lx, the application asked for %#lx", sig, (long)got, (long)want);
}
static void h0(int s) { in_handler(0, s, nullptr, nullptr); }
static void h1(int s) { in_handler(1, s, nullptr, nullptr); }
static void s0(int s, siginfo_t *i, void *u) { in_handler(4, s, i, u); }
static void s1(int s, siginfo_t *i, void *u) { in_handler(5, s, i, u); }
static void app_set(int sig, void *h, int flags, u64 mask);
static void s2(int s, siginfo_t *i, void *u) { in_handler(6, s, i, u); app_set(s, (void *)SIG_IGN, 0, 0); }   // resets itself
static int hidx(void *h) { return h == (void *)h0 ? 0 : h == (void *)h1 ? 1 : h == (void *)s0 ? 4 : h == (void *)s1 ? 5 : h == (void *)s2 ? 6 : -1; }
static void reg_client(int sig, int mode, const struct sigaction *act = nullptr);
static int client(int sig, siginfo_t *si, void *uc) {
  NCLIENT++; ev(E_CLIENT_HANDLER, sig, CLM[sig]);
  CHECK("C11", sig == PSIG && si && uc && si->si_signo == sig && si->si_code == EXPCODE && si->si_value.sival_int == EXPVAL, "the client's handler got signal %d instead of %d, or wrong siginfo", sig, PSIG);
  if (CLM[sig] == CL_PASSOFF) { reg_client(sig, CL_NONE); return 1; }   // takes itself off
  return CLM[sig] == CL_ACCEPT ? 0 : CLM[sig] == CL_PASS ? 1 : -1;
}
static void check_old(int sig, const struct sigaction *o, const char *what) {
  Act &m = M[sig];
  CHECK("C11", (void *)o->sa_handler == m.h, "%s: the old action of signal %d has handler %p, the application's is %p", what, sig, (void *)o->sa_handler, m.h);
  if (m.by_signal) return;
  CHECK("C11", o->sa_flags == m.flags, "%s: the old action of signal %d has flags %#x, the application's are %#x", what, sig, o->sa_flags, m.flags);
  CHECK("C11", set2bits(&o->sa_mask) == m.mask, "%s: the old action of signal %d has mask %#lx, the application's is %#lx", what, sig, (long)set2bits(&o->sa_mask), (long)m.mask);
}
static void note_set(int sig) { EXPBLK[sig] = CLSET; DONTCARE[sig] = 0; }
static void app_set(int sig, void *h, int flags, u64 mask) {
  struct sigaction a, o, a0; memset(&a, 0, sizeof a); a.sa_sigaction = (void (*)(int, siginfo_t *, void *))h; a.sa_flags = flags; bits2set(mask, &a.sa_mask); a0 = a; memset(&o, 0x33, sizeof o);
  int r = A.sigaction(sig, &a, &o);
  CHECK("C11", r == 0, "sigaction(%d) fails", sig);
  CHECK("C11", !memcmp(&a, &a0, sizeof a), "sigaction(%d) changes the application's struct", sig);
  check_old(sig, &o, "sigaction");
  M[sig] = {h, flags, mask, false}; note_set(sig);
  int want = (flags | SA_SIGINFO | SA_RESTART) & ~(SA_RESETHAND | SA_ONSTACK);
  CHECK("C11", (W.act[sig].sa_flags & ~0x04000000) == want, "sigaction(%d): flags %#x are in force, expected are %#x", sig, W.act[sig].sa_flags, want);
}
static void app_query(int sig) {
  struct sigaction o; memset(&o, 0x33, sizeof o); struct sigaction before = W.act[sig];
  int r = A.sigaction(sig, nullptr, &o);
  CHECK("C11", r == 0, "sigaction query of %d fails", sig);
  check_old(sig, &o, "query");
  CHECK("C11", before.sa_handler == W.act[sig].sa_handler && before.sa_flags == W.act[sig].sa_flags && set2bits(&before.sa_mask) == set2bits(&W.act[sig].sa_mask), "a query changes the action of signal %d", sig);
}
static void app_signal(int sig, void *h) {
  void *o = (void *)A.signal(sig, (void (*)(int))h);
  CHECK("C11", o == M[sig].h, "signal(%d) returned %p, the application's handler was %p", sig, o, M[sig].h);
  M[sig] = {h, 0, 0, true}; note_set(sig);
}
static void client_act(int sig, const struct sigaction *a);
static void reg_client(int sig, int mode, const struct sigaction *act) {
  CLM[sig] = mode; struct sigaction a, a0; if (act) a = a0 = *act;
  int r = A.m_sigaction(sig, mode ? client : nullptr, 0, act ? &a : nullptr);
  if (act) { CHECK("C11", !memcmp(&a, &a0, sizeof a), "monitor_sigaction(%d) changes the client's struct", sig); client_act(sig, act); }
  CHECK("C11", r == 0, "monitor_sigaction(%d) fails", sig);
  CLSET |= sbit(sig); for (int s = 1; s < NSIGS; s++) DONTCARE[s] |= sbit(sig);
}
// the flags and mask the client asks for are in force, the application's action stays
static void client_act(int sig, const struct sigaction *a) {
  int want = (a->sa_flags | SA_SIGINFO | SA_RESTART) & ~(SA_RESETHAND | SA_ONSTACK), got = W.act[sig].sa_flags & ~0x04000000;
  CHECK("C11", got == want, "monitor_sigaction(%d): flags %#x are in force, expected are %#x", sig, got, want);
  u64 wm = (set2bits(&a->sa_mask) | sbit(SHOOT)) & ~NOMASK, gm = set2bits(&W.act[sig].sa_mask) & ~NOMASK;
  CHECK("C11", gm == wm, "monitor_sigaction(%d): mask %#lx is in force, expected is %#lx", sig, (long)gm, (long)wm);
  struct sigaction o; memset(&o, 0x33, sizeof o); A.sigaction(sig, nullptr, &o); check_old(sig, &o, "query after monitor_sigaction");
  DONTCARE[sig] = ~0ull;   // the application's handler now runs with the client's mask
}
// send a signal to the calling thread and compare what happens with the model
static bool deliver(int sig, int code, int val, int via) {
  Thr *t = cur(); Act m = M[sig]; int cm = CLM[sig];
  bool blocked = t->mask & sbit(sig);
  int calls[8]; memcpy(calls, NCALL, sizeof calls); int ncl = NCLIENT, at = NLOG;
  PSIG = sig; EXPCODE = via == 1 ? SI_TKILL : code; EXPVAL = via == 1 ? 0 : val; CALLMASK = t->mask;
  bool offered = cm != CL_NONE, to_app = cm != CL_ACCEPT;
  bool fatal = to_app && m.h == (void *)SIG_DFL && !noterm(sig) && !stops(sig);
  if (blocked) { prune(); return false; }
  if (fatal) { t->exp_how = 2; t->exp_status = sig; FATAL_ENDS = true; ev(E_APP_OP, OP_EXIT, K_ABORTSIG); }
  if (via == 1) sim_raise(sig); else if (via == 2) { app_fault(sig); } else { send_thread(t->id, sig, code, val); app_point(); }
  if (fatal) { fail("C12", "signal %d, whose action is the default, did not end the process", sig); return false; }
  CHECK("C11", NCLIENT - ncl == (offered ? 1 : 0), "signal %d was offered to the client's handler %d times", sig, NCLIENT - ncl);
  int stp = 0; for (int i = at; i < NLOG; i++) stp += LOG[i].type == E_STOPPED;
  bool st = to_app && m.h == (void *)SIG_DFL && stops(sig);
  for (int i = at; i < NLOG; i++) CHECK("C12", LOG[i].type != CB_begin_process_exit && LOG[i].type != CB_fini_process && LOG[i].type != CB_fini_library, "signal %d, which is not fatal here, gave %s", sig, evname(LOG[i].type));
  CHECK("C12", stp == (st ? 1 : 0), "signal %d: the process was stopped %d times", sig, stp);
  int k = to_app ? hidx(m.h) : -1;
  for (int i = 0; i < 8; i++) CHECK("C11", NCALL[i] - calls[i] == (i == k), "signal %d: the application's handler %d was called %d times%s", sig, i, NCALL[i] - calls[i], cm == CL_ACCEPT ? " although the client accepted the signal" : "");
  CHECK("C11", t->mask == CALLMASK, "signal %d: the mask is %#lx after the handler, it was %#lx", sig, (long)t->mask, (long)CALLMASK);
  return true;
}
static void sig_finish() {
  if (FATAL_ENDS) {
    CHECK("C12", W.end_kind == END_SIGNAL && W.end_status == W.thr[W.cur].exp_status, "a fatal signal %d ended the process with kind %d status %ld", W.thr[W.cur].exp_status, W.end_kind, W.end_status);
    int nb = 0, nf = 0, nl = 0; for (int i = 0; i < NLOG; i++) { nb += LOG[i].type == CB_begin_process_exit && LOG[i].a == 2; nf += LOG[i].type == E_CBEND && LOG[i].a == CB_fini_process; nl += LOG[i].type == E_CBEND && LOG[i].a == CB_fini_library; }
    CHECK("C12", nb == 1 && nf == 1, "a fatal signal gave %d begin-process-exit callbacks with reason signal and %d fini-process callbacks", nb, nf);
    if (O.dynamic) CHECK("C12", nl == 1, "a fatal signal gave %d fini-library callbacks", nl);
  } else CHECK("C12", W.end_kind == END_EXIT, "the process was ended by signal %ld, which is not fatal here", W.end_status);
  check_all();
}
static void init_model_from_kernel(int sig, int inherited) { if (inherited) { W.act[sig].sa_handler = SIG_IGN; M[sig].h = (void *)SIG_IGN; } }

// ---------------------------------------------------------------- histories of one signal
static const int hist_sigs[] = {SIGUSR1, SIGCHLD, SIGTSTP, SIGSEGV, 40, SIGWINCH, 42, 64};
static int HS, HDEPTH;
static void one_op(int sig) {
  u64 mk = sbit(SIGTERM) | sbit(SIGPROF) | sbit(50) | sbit(SIGKILL) | sbit(42);
  switch (pick(15)) {
  case 0: app_set(sig, (void *)SIG_DFL, 0, 0); break;
  case 1: app_set(sig, (void *)SIG_IGN, SA_RESTART, sbit(SIGHUP)); break;
  case 2: app_set(sig, (void *)h0, 0, 0); break;
  case 3: app_set(sig, (void *)h1, SA_NODEFER, mk); break;
  case 4: app_set(sig, (void *)s0, SA_SIGINFO, ~0ull); break;
  case 5: app_set(sig, (void *)s1, SA_SIGINFO | SA_RESETHAND | SA_ONSTACK | SA_NOCLDSTOP | SA_NODEFER, sbit(SIGUSR2)); break;
  case 6: app_set(sig, (void *)s2, SA_SIGINFO, 0); break;
  case 7: app_query(sig); break;
  case 8: app_signal(sig, (void *)h1); break;
  case 9: app_signal(sig, (void *)(pick(2) ? SIG_IGN : SIG_DFL)); break;
  case 10: reg_client(sig, CL_ACCEPT); break;
  case 11: { static const int cm[] = {CL_PASSNEG, CL_PASS, CL_PASSOFF}; reg_client(sig, cm[pick(3)]); break; }
  case 12: { if (!pick(2)) { reg_client(sig, CL_NONE); break; } struct sigaction a; memset(&a, 0, sizeof a); a.sa_flags = SA_NODEFER | SA_RESETHAND; bits2set(sbit(SIGHUP) | sbit(SIGPROF), &a.sa_mask); reg_client(sig, CL_PASS, &a); break; }
  case 13: deliver(sig, SI_USER, 0, 0); break;
  case 14: if (pick(2)) deliver(sig, SI_QUEUE, 4711, 0); else deliver(sig, 0, 0, 1); break;
  }
}
static int hist_main(int, char **, char **) {
  for (int i = 0; i < HDEPTH; i++) one_op(HS);
  app_query(HS);
  deliver(HS, SI_QUEUE, 33, 0);
  deliver(HS, SI_USER, 1, 0);
  cur()->exp_how = 1; cur()->exp_status = 0; ev(E_APP_OP, OP_EXIT, K_RETURN);
  return 0;
}
static void s_hist() { app_setup(); AP.no_thread_checks = true; reset_model(); HDEPTH = PARAM ? PARAM : 3; HS = hist_sigs[pick(NEL(hist_sigs))]; init_model_from_kernel(HS, pick(2)); }
SCENARIO(sig_hist, s_hist, hist_main, sig_finish, "all histories of actions, client registrations and deliveries of one signal")

// two signals that meet in masks and nested handlers
static void nest(int s, siginfo_t *i, void *u);
static int N1, N2, NESTED;
static void n_inner(int s, siginfo_t *, void *) { NESTED++; ev(E_APP_HANDLER, 100, s); CHECK("C11", s == N2, "nested handler got %d", s); CHECK("C11", cur()->mask & sbit(N2) & ~NOMASK, "nested handler runs with its own signal open"); }
static void nest(int s, siginfo_t *, void *) {
  ev(E_APP_HANDLER, 101, s); bool blk = cur()->mask & sbit(N2);
  int before = NESTED; sim_raise(N2);
  CHECK("C11", NESTED - before == (blk ? 0 : 1), "signal %d raised in the handler of %d ran its handler %d times while it was %s", N2, s, NESTED - before, blk ? "blocked" : "open");
  ev(E_USER, 1, blk);
}
static int NFL; static u64 NMK; static int NCL;
static int nest_main(int, char **, char **) {
  struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = n_inner; a.sa_flags = SA_SIGINFO; 
  if (NCL) { CLM[N2] = CL_PASS; A.m_sigaction(N2, [](int, siginfo_t *, void *) { return 1; }, 0, nullptr); }
  A.sigaction(N2, &a, nullptr);
  a.sa_sigaction = nest; a.sa_flags = NFL; bits2set(NMK, &a.sa_mask); A.sigaction(N1, &a, nullptr);
  sim_raise(N1);
  CHECK("C11", NESTED == 1, "the handler of signal %d ran %d times", N2, NESTED);
  // an app mask with the other signal defers it, unless that one is the client's
  int i; for (i = 0; i < NLOG && LOG[i].type != E_USER; i++) {}
  bool want = (NMK & sbit(N2)) && !NCL && !(reserved() & sbit(N2));
  if (N2 == SHOOT) want = true;
  CHECK("C11", i < NLOG && LOG[i].b == want, "the handler of %d runs with %d %s", N1, N2, want ? "open" : "blocked");
  cur()->exp_how = 1; cur()->exp_status = 0; ev(E_APP_OP, OP_EXIT, K_RETURN);
  return 0;
}
static void s_nest() {
  app_setup(); AP.no_thread_checks = true; reset_model(); NESTED = 0;
  static const int n1[] = {SIGUSR1, 40, SIGTERM, SIGALRM}, n2[] = {SIGUSR2, 42, 50, SIGPROF};
  N1 = n1[pick(4)]; N2 = n2[pick(4)]; NFL = SA_SIGINFO | (pick(2) ? SA_NODEFER : 0); u64 mk[] = {0, ~0ull, sbit(SIGUSR2) | sbit(SIGPROF), sbit(50)}; NMK = mk[pick(4)]; NCL = pick(2);
}
SCENARIO(sig_nest, s_nest, nest_main, sig_finish, "a second signal arrives in the handler of the first")

// ---------------------------------------------------------------- every number, every function
static int NUM, FN;
static int nums_main(int, char **, char **) {
  Thr *t = cur(); struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h0; t->err = 4711; bool ks = NUM == SIGKILL || NUM == SIGSTOP;
  switch (FN) {
  case 0: case 1: case 2: {
    int r = A.sigaction(NUM, FN == 1 ? nullptr : &a, FN == 2 ? nullptr : &o); bool bad = bad_sig(NUM) || (ks && FN != 1);
    CHECK("C11", r == (bad ? -1 : 0) && (!bad || t->err == EINVAL), "sigaction(%d) returned %d errno %d, the system's %s it", NUM, r, t->err, bad ? "rejects" : "accepts");
    break; }
  case 3: { void *r = (void *)A.signal(NUM, h1); bool bad = bad_sig(NUM) || ks; CHECK("C11", (r == (void *)SIG_ERR) == bad && (!bad || t->err == EINVAL), "signal(%d) returned %p errno %d, the system's %s it", NUM, r, t->err, bad ? "rejects" : "accepts"); break; }
  case 4: { int r = A.m_sigaction(NUM, client, 0, nullptr); bool bad = bad_sig(NUM) || ks; CHECK("C11", r == (bad ? -1 : 0), "monitor_sigaction(%d) returned %d", NUM, r); break; }
  case 5: case 6: {
    memset(&o, 0, sizeof o); if (FN == 6) { o.sa_flags = SA_NODEFER | SA_RESETHAND | SA_NOCLDSTOP; bits2set(sbit(SIGHUP) | sbit(50) | sbit(SIGPROF), &o.sa_mask); }
    int r = A.m_sigaction(NUM, client, 0, &o); bool bad = bad_sig(NUM) || ks; CHECK("C11", r == (bad ? -1 : 0), "monitor_sigaction(%d) returned %d", NUM, r); if (!bad) client_act(NUM, &o); break; }
  }
  // all other signals are untouched
  for (int s = 1; s <= 64; s++) if (s != NUM && s != 32 && s != 33) { memset(&o, 0, sizeof o); A.sigaction(s, nullptr, &o); CHECK("C11", o.sa_handler == SIG_DFL, "an operation on signal %d changed the action of %d", NUM, s); }
  if (!bad_sig(NUM) && !(NUM == SIGKILL || NUM == SIGSTOP)) {
    if (FN == 0 || FN == 2) M[NUM] = {(void *)h0, 0, 0, false}; if (FN == 3) M[NUM] = {(void *)h1, 0, 0, true}; if (FN >= 4) CLM[NUM] = CL_ACCEPT; note_set(NUM);
    if (FN >= 4) { deliver(NUM, SI_QUEUE, 9, 0); } else if (FN != 1) deliver(NUM, SI_QUEUE, 9, 0);
    app_query(NUM);
  }
  cur()->exp_how = 1; cur()->exp_status = 0; ev(E_APP_OP, OP_EXIT, K_RETURN);
  return 0;
}
static void s_nums() { app_setup(); AP.no_thread_checks = true; reset_model(); int k = pick(78); static const int odd[] = {-1, -64, INT_MIN, INT_MAX, 127, 128, 129, 1024}; NUM = k < 70 ? k : odd[k - 70]; FN = pick(7); }
SCENARIO(sig_nums, s_nums, nums_main, sig_finish, "every signal number, valid or not, with every function")

// ---------------------------------------------------------------- default effects
static int DS, DORG, DWHERE, DCL, DAPP;
static bool fixed() { return CLM[DS] == CL_ACCEPT || (M[DS].h != (void *)SIG_DFL && M[DS].h != (void *)SIG_IGN); }
static void def_op() {
  static const int code[] = {SI_USER, 0, 0, SI_QUEUE, SI_TIMER, SI_KERNEL};
  deliver(DS, code[DORG], DORG == 3 ? 77 : 0, DORG == 1 ? 1 : 0);
}
static void def_run() {
  if (DORG == 2) {
    Thr *t = cur(); bool fatal = CLM[DS] != CL_ACCEPT && M[DS].h == (void *)SIG_DFL; PSIG = DS; EXPCODE = 1; EXPVAL = 0; CALLMASK = t->mask;
    siginfo_t si; memset(&si, 0, sizeof si); si.si_addr = (void *)0xdead0; EXPVAL = si.si_value.sival_int;
    if (fatal) { t->exp_how = 2; t->exp_status = DS; FATAL_ENDS = true; ev(E_APP_OP, OP_EXIT, K_FAULT); }
    app_fault(DS);
    if (fatal) fail("C12", "a fault with signal %d did not end the process", DS);
    CHECK("C12", CLM[DS] == CL_NONE || NCLIENT == 1, "the client got the fault %d times", NCLIENT);
  } else def_op();
}
static void *def_thr(Spec *) { def_run(); return nullptr; }
static void def_in_handler(int) { u64 m = cur()->mask; if (m & sbit(DS)) return; def_run(); }
static int def_main(int, char **, char **) {
  if (DCL) reg_client(DS, DCL);
  if (DAPP == 1) app_set(DS, (void *)SIG_IGN, 0, 0);
  if (DAPP == 2) { app_set(DS, (void *)h0, 0, 0); app_set(DS, (void *)SIG_DFL, 0, 0); }
  if (DAPP == 4) app_signal(DS, (void *)SIG_IGN);
  if (DAPP == 5) app_set(DS, (void *)s0, SA_SIGINFO, 0);
  switch (DWHERE) {
  case 0: def_run(); break;
  case 1: { int k = app_create(K_CUSTOM, 0, def_thr); if (k >= 0) app_join(k, nullptr); break; }
  case 2: { A.disable_new_threads(); int k = app_create(K_CUSTOM, 0, def_thr); if (k >= 0) app_join(k, nullptr); break; }
  case 3: { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = def_in_handler; A.sigaction(DS == SIGUSR1 ? SIGUSR2 : SIGUSR1, &a, nullptr); sim_raise(DS == SIGUSR1 ? SIGUSR2 : SIGUSR1); break; }
  case 4: { sigset_t s, o; sigemptyset(&s); sigaddset(&s, DS); A.pthread_sigmask(SIG_BLOCK, &s, &o); A.pthread_sigmask(SIG_SETMASK, &o, nullptr); def_run(); break; }
  }
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 0; ev(E_APP_OP, OP_EXIT, K_RETURN);
  return 0;
}
static void s_default() {
  app_setup(); reset_model(); static const int sync[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGSYS};
  DS = 1 + pick(64); if (bad_sig(DS) || DS == SIGKILL || DS == SIGSTOP) { prune(); return; }
  bool sy = false; for (int s : sync) sy |= s == DS;
  DORG = pick(6); DWHERE = pick(5); DCL = pick(4); DAPP = pick(6);
  if (DORG == 5 && (DS == SIGSEGV || DS == SIGBUS || DS == SIGILL || DS == SIGFPE)) { prune(); return; }   // the kernel sends these for faults only
  if (DORG == 2 && (!sy || DAPP == 1 || DAPP == 3 || DAPP == 4 || DAPP == 5)) { prune(); return; }   // a fault that is ignored is undefined
  if (DS == SHOOT && DWHERE == 3) { prune(); return; }
  if (DWHERE == 3 && DAPP == 5) { prune(); return; }
  init_model_from_kernel(DS, DAPP == 3);
  S.fault_fixed = fixed; AP.no_thread_checks = DS == SHOOT;
}
SCENARIO(sig_default, s_default, def_main, sig_finish, "every signal, origin, thread and combination of client and application action")

// a fatal signal meets threads in every phase; nothing else ends the process
static int FS, FK, FN_; static bool FQ;
static void fkiller(long) { env_kill_process(FS, FQ ? SI_QUEUE : SI_USER, 0); }
static int fatal_main(int, char **, char **) { spawn_env(fkiller, 0); for (int i = 0; i < FN_; i++) app_create(FK, 20 + i); app_barrier(FN_); app_compute(); return 0; }
static void fatal_finish() {
  CHECK("C12", W.end_kind == END_SIGNAL && W.end_status == FS, "signal %d from outside ended the process with kind %d status %ld", FS, W.end_kind, W.end_status);
  int nb = 0, nf = 0, nl = 0; for (int i = 0; i < NLOG; i++) { nb += LOG[i].type == CB_begin_process_exit && LOG[i].a == 2; nf += LOG[i].type == E_CBEND && LOG[i].a == CB_fini_process; nl += LOG[i].type == E_CBEND && LOG[i].a == CB_fini_library; }
  CHECK("C12", nb == 1 && nf == 1 && (!O.dynamic || nl == 1), "a fatal signal gave %d begin-process-exit, %d fini-process and %d fini-library callbacks", nb, nf, nl);
  if (FS != SHOOT) check_all();
}
static void s_fatal() {
  app_setup(); reset_model(); static const int fs[] = {SIGTERM, SIGSEGV, SIGINT, 35, 42, SIGPIPE}; FS = fs[pick(NEL(fs))]; FQ = pick(2); AP.signo = FS; AP.async_sig = true;
  static const int k[] = {K_RETURN, K_COMPUTE, K_SLEEPER, K_CREATE, K_PEXIT, K_BLOCKED}; FN_ = pick(2); FK = FN_ ? k[pick(NEL(k))] : 0; AP.sync = FN_ ? pick(2) : 0;
}
SCENARIO(sig_fatal, s_fatal, fatal_main, fatal_finish, "a fatal signal comes from outside at any point of a two-thread process")

// ---------------------------------------------------------------- masks
static u64 KEEP;
static u64 mask_model(u64 m, int how, bool nul, u64 set) {
  if (nul) return m;
  set &= ~NOMASK; u64 r = how == SIG_BLOCK ? m | set : how == SIG_UNBLOCK ? m & ~set : how == SIG_SETMASK ? set : m;
  return (r & ~KEEP) | (m & KEEP);
}
static void mask_op(int fn, int how, bool nul, u64 set, bool want_old) {
  Thr *t = cur(); u64 m = t->mask, want = mask_model(m, how, nul, set); sigset_t s, s_0, o; memset(&s, 0, sizeof s); bits2set(set, &s); s_0 = s; memset(&o, 0x5a, sizeof o);
  const char *name = fn ? "pthread_sigmask" : "sigprocmask"; t->err = 4711;
  bool bad = !nul && how != SIG_BLOCK && how != SIG_UNBLOCK && how != SIG_SETMASK;
  int r = fn ? A.pthread_sigmask(how, nul ? nullptr : &s, want_old ? &o : nullptr) : A.sigprocmask(how, nul ? nullptr : &s, want_old ? &o : nullptr);
  if (bad) CHECK("C13", fn ? r == EINVAL : r == -1 && t->err == EINVAL, "%s with how %d returned %d errno %d", name, how, r, t->err);
  else CHECK("C13", r == 0, "%s returned %d", name, r);
  CHECK("C13", (t->mask & KEEP) == (m & KEEP), "%s(%s, %#lx): the client's signals %#lx were changed in the mask", name, how == SIG_BLOCK ? "block" : how == SIG_UNBLOCK ? "unblock" : "setmask", (long)set, (long)((t->mask ^ m) & KEEP));
  CHECK("C13", t->mask == want, "%s(%s, %#lx) on mask %#lx gives %#lx, the system's would give %#lx", name, how == SIG_BLOCK ? "block" : how == SIG_UNBLOCK ? "unblock" : how == SIG_SETMASK ? "setmask" : "?", (long)set, (long)m, (long)t->mask, (long)want);
  if (want_old && !bad) CHECK("C13", set2bits(&o) == m, "%s: the old mask is %#lx, it was %#lx", name, (long)set2bits(&o), (long)m);
  CHECK("C13", !memcmp(&s, &s_0, sizeof s), "%s modifies the application's set", name);
}
static int MDEPTH, MMODE, MSIG; static bool MREG;
static int mc(int, siginfo_t *, void *) { return 0; }
static void mask_seq() {
  static const int hows[] = {SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK, 99};
  u64 sets[] = {0, ~0ull, sbit(SIGUSR1) | sbit(40), sbit(SHOOT), sbit(SIGPROF) | sbit(SIGUSR2) | sbit(44), sbit(SIGKILL) | sbit(32) | sbit(33) | sbit(SHOOT) | sbit(SIGTERM), ~sbit(SIGUSR1)};
  for (int i = 0; i < MDEPTH; i++) {
    int k = pick(3 + NEL(hows) * NEL(sets));
    if (k == 0) { A.m_sigaction(SIGPROF, mc, 0, nullptr); KEEP |= sbit(SIGPROF); continue; }
    if (k == 1) { A.m_sigaction(44, pick(2) ? mc : nullptr, 0, nullptr); KEEP |= sbit(44); continue; }
    if (k == 2) { mask_op(pick(2), 99, true, 0, true); continue; }
    k -= 3; mask_op(pick(2), hows[k / NEL(sets)], false, sets[k % NEL(sets)], true);
  }
}
static void *mask_thr(Spec *) { mask_seq(); return nullptr; }
static int mask_main(int, char **, char **) {
  switch (MMODE) {
  case 0: mask_seq(); break;
  case 1: { int k = app_create(K_CUSTOM, 0, mask_thr); if (k >= 0) app_join(k, nullptr); break; }
  case 3: O.follow = 2; A.fork(); mask_seq(); break;
  case 4: { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = [](int) { mask_seq(); }; A.sigaction(SIGUSR1, &a, nullptr); u64 m = cur()->mask; if (m & sbit(SIGUSR1)) { prune(); return 0; } sim_raise(SIGUSR1); break; }
  }
  cur()->exp_how = 1; cur()->exp_status = 0; ev(E_APP_OP, OP_EXIT, K_RETURN);
  return 0;
}
static void set_init_mask() { u64 init[] = {0, ~0ull & ~NOMASK, sbit(SHOOT) | sbit(SIGUSR1), sbit(SIGPROF) | sbit(44), ~sbit(SHOOT) & ~NOMASK}; W.thr[0].mask = init[pick(5)]; }
static void s_mask() {
  app_setup(); AP.no_thread_checks = true; reset_model(); KEEP = CLSET; MDEPTH = PARAM ? PARAM : 2; set_init_mask(); MMODE = pick(5);
  if (MMODE == 2) S.app_init = [] { mask_seq(); };
}
SCENARIO(mask_seq, s_mask, mask_main, check_all, "all sequences of mask operations and client registrations, in main, a thread, before main, a child and a handler")
static int mask_one_main(int, char **, char **) {
  if (MREG) { if (A.m_sigaction(MSIG, mc, 0, nullptr) == 0) KEEP |= sbit(MSIG); }
  for (int fn = 0; fn < 2; fn++) { mask_op(fn, SIG_BLOCK, false, sbit(MSIG), true); mask_op(fn, SIG_BLOCK, false, sbit(MSIG), false); mask_op(fn, SIG_UNBLOCK, false, sbit(MSIG), true); mask_op(fn, SIG_SETMASK, false, sbit(MSIG), true); mask_op(fn, SIG_SETMASK, false, ~sbit(MSIG), true); mask_op(fn, SIG_SETMASK, true, 0, true); mask_op(fn, SIG_UNBLOCK, false, ~0ull, false); mask_op(fn, -1, false, sbit(MSIG), true); mask_op(fn, 3, true, 0, false); }
  cur()->exp_how = 1; cur()->exp_status = 0; ev(E_APP_OP, OP_EXIT, K_RETURN);
  return 0;
}
static void s_mask_one() { app_setup(); AP.no_thread_checks = true; reset_model(); KEEP = CLSET; set_init_mask(); MSIG = 1 + pick(64); MREG = pick(2); O.preload_ctor = pick(2); }
SCENARIO(mask_one, s_mask_one, mask_one_main, check_all, "every signal singly in every mask operation, client or not")

// ---------------------------------------------------------------- sigwait family
enum { A_SIG, A_CLSIG, A_OUT, A_EINTR, A_EAGAIN, A_EINVAL, A_RT, A_N };
static int WF, WANS[8], WN, WAT, WCL, WNUL; static sigset_t WSET; static struct timespec WTO; static u64 WSYSSET; static int WSIG, WERR, WVAL; static const struct timespec *WTOP; static u64 WELAPSED, WTOUS; static int WCALLS;
static const int wait_sig = SIGUSR1, cl_sig = SIGPROF, out_sig = SIGALRM; static int rt_sig = 45, WTHR;
static int WCODE;
static int w_client(int sig, siginfo_t *si, void *uc) {
  NCLIENT++; ev(E_CLIENT_HANDLER, sig, WCL);
  CHECK("C14", sig == cl_sig, "the client's handler got signal %d", sig);
  CHECK("C14", si && si->si_signo == cl_sig && si->si_value.sival_int == WVAL && si->si_code == WCODE, "the client's handler got wrong siginfo from sigwait");
  (void)uc; return WCL == CL_ACCEPT ? 0 : WCL == CL_PASS ? 1 : -1;
}
static int sys_answer(u64 set, siginfo_t *info, const struct timespec *to) {
  WCALLS++;
  CHECK("C14", set == (set2bits(&WSET) & ~NOMASK), "the system waits for %#lx, the application for %#lx", (long)set, (long)set2bits(&WSET));
  if (WF == 2 && WTOP) {
    CHECK("C14", to != nullptr, "sigtimedwait waits without the application's timeout");
    u64 us = (u64)to->tv_sec * 1000000 + to->tv_nsec / 1000;
    CHECK("C14", us + WELAPSED <= WTOUS + 1000 && us + WELAPSED + 1000 >= WTOUS, "sigtimedwait: after %.3f s the system waits for another %.3f s, the application's timeout is %.3f s", WELAPSED / 1e6, us / 1e6, WTOUS / 1e6);
  } else CHECK("C14", to == nullptr, "a wait without timeout was given one");
  int a = pick(A_N); if (WN >= 8) { prune(); return -1; }
  if (a == A_EAGAIN && !(WF == 2 && WTOP)) { prune(); return -1; }
  WANS[WN++] = a; ev(E_USER, 50, a);
  if (to && (a == A_EINTR || a == A_CLSIG || a == A_OUT)) { u64 d = WTOUS / 4; W.now += d; WELAPSED += d; W.rt_off += 3600000000ull; }   // time passes, and the time of day is set
  WVAL = 100 + WN; WCODE = SI_QUEUE;
  auto give = [&](int sig) { if (info) { memset(info, 0, sizeof *info); info->si_signo = sig; info->si_code = SI_QUEUE; info->si_value.sival_int = WVAL; } return sig; };
  switch (a) {
  case A_SIG: return give(wait_sig);
  case A_CLSIG: return give(cl_sig);
  case A_OUT: return give(out_sig);
  case A_RT: return give(rt_sig);
  case A_EINTR: cur()->err = EINTR; return -1;
  case A_EAGAIN: cur()->err = EAGAIN; return -1;
  default: cur()->err = EINVAL; return -1;
  }
}
static void wait_body() {
  Thr *t = cur();
  if (WCL) A.m_sigaction(cl_sig, w_client, 0, nullptr);
  for (int n = 0; n < WAT; n++) {
    WN = 0; WCALLS = 0; WELAPSED = 0; NCLIENT = 0; t->err = 4711; siginfo_t si; memset(&si, 0x77, sizeof si); int sig = 4711, r;
    if (WF == 0) r = A.sigwait(&WSET, WNUL ? nullptr : &sig); else if (WF == 1) r = A.sigwaitinfo(&WSET, WNUL ? nullptr : &si); else r = A.sigtimedwait(&WSET, WNUL ? nullptr : &si, WTOP);
    // reference: which answer had to be the last
    int k, want = 0, ncl = 0; const char *fn[] = {"sigwait", "sigwaitinfo", "sigtimedwait"};
    for (k = 0; k < WN; k++) {
      int a = WANS[k];
      if (a == A_EINTR || a == A_OUT) continue;
      if (a == A_CLSIG) { if (WCL) ncl++; if (WCL == CL_ACCEPT || !sigismember(&WSET, cl_sig)) continue; want = cl_sig; break; }
      if (a == A_RT) { if (!sigismember(&WSET, rt_sig)) continue; want = rt_sig; break; }
      want = a == A_SIG ? wait_sig : a == A_EAGAIN ? -EAGAIN : -EINVAL; break;
    }
    CHECK("C14", k == WN - 1, "%s %s", fn[WF], k >= WN ? "returned although the wait had to be restarted" : "went on waiting although it had a result");
    CHECK("C14", NCLIENT == ncl, "%s: the client's handler ran %d times for %d signals", fn[WF], NCLIENT, ncl);
    if (WF == 0) {
      CHECK("C14", r == (want < 0 ? -want : 0), "sigwait returned %d, expected %d", r, want < 0 ? -want : 0);
      if (want > 0 && !WNUL) CHECK("C14", sig == want, "sigwait gave signal %d, the system's was %d", sig, want);
    } else {
      CHECK("C14", r == (want < 0 ? -1 : want), "%s returned %d, expected %d", fn[WF], r, want < 0 ? -1 : want);
      if (want < 0) CHECK("C14", t->err == -want, "%s: errno is %d, the system's was %d", fn[WF], t->err, -want);
      if (want > 0 && !WNUL) CHECK("C14", si.si_signo == want && si.si_code == SI_QUEUE && si.si_value.sival_int == WVAL, "%s: siginfo is not the system's", fn[WF]);
    }
  }
}
static void *wait_thr(Spec *) { wait_body(); return nullptr; }
static int wait_main(int, char **, char **) {
  if (WTHR) { int k = app_create(K_CUSTOM, 0, wait_thr); if (k >= 0) app_join(k, nullptr); } else wait_body();
  int nf = count_ev(CB_fini_thread); CHECK("C14", nf == WTHR, "%d fini-thread callbacks before process exit", nf);
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 0; ev(E_APP_OP, OP_EXIT, K_RETURN);
  return 0;
}
static void s_wait() {
  app_setup(); reset_model(); AP.no_thread_checks = true; S.on_sigwait = sys_answer; WF = pick(3); WNUL = WF && pick(2); WCL = pick(4); WTHR = pick(2); rt_sig = pick(2) ? SHOOT : 45; WAT = 1;
  sigemptyset(&WSET); sigaddset(&WSET, wait_sig); if (pick(2)) sigaddset(&WSET, cl_sig); if (pick(2)) sigaddset(&WSET, rt_sig);
  WTOP = nullptr; if (WF == 2) { int k = pick(3); static const struct timespec ts[] = {{0, 0}, {8, 500000000}}; if (k) { WTO = ts[k - 1]; WTOP = &WTO; WTOUS = (u64)WTO.tv_sec * 1000000 + WTO.tv_nsec / 1000; } }
  W.sv[1] = PARAM ? PARAM : 4;
}
static int sys_answer_bounded(u64 set, siginfo_t *info, const struct timespec *to) { if (WN >= W.sv[1]) { prune(); return -1; } return sys_answer(set, info, to); }
static void s_wait_b() { s_wait(); S.on_sigwait = sys_answer_bounded; }
SCENARIO(wait_answers, s_wait_b, wait_main, check_all, "the sigwait functions against all sequences of answers of the system")

// real waiting in the simulated system: queued signals, timeouts, handlers that interrupt
static int RW[3], RWN, RWT;
static void rw_env(long) { for (int i = 0; i < RWN; i++) env_kill_process(RW[i], SI_QUEUE, 10 + i); }
static int rw_client(int sig, siginfo_t *si, void *) { ev(E_CLIENT_HANDLER, sig, si ? si->si_value.sival_int : -1); return 0; }
static void rw_app(int s) { ev(E_APP_HANDLER, s); }
static int rw_main(int, char **, char **) {
  Thr *t = cur();
  sigset_t set; sigemptyset(&set); sigaddset(&set, wait_sig); sigaddset(&set, rt_sig); sigaddset(&set, cl_sig);
  A.m_sigaction(cl_sig, rw_client, 0, nullptr); A.signal(out_sig, rw_app);
  if (pick(2)) A.pthread_sigmask(SIG_BLOCK, &set, nullptr); else A.pthread_sigmask(SIG_BLOCK, &set, nullptr);
  spawn_env(rw_env, 0);
  struct timespec to = {2, 0}; u64 begin = W.now; int got = 0;
  for (;;) {
    siginfo_t si; memset(&si, 0, sizeof si); int sig = 0, r; u64 t0 = W.now;
    if (RWT) r = A.sigtimedwait(&set, &si, &to); else if (WF) r = A.sigwaitinfo(&set, &si); else { r = A.sigwait(&set, &sig); r = r ? -1 : sig; }
    if (r < 0) {
      CHECK("C14", RWT && t->err == EAGAIN, "wait failed with errno %d", t->err);
      CHECK("C14", W.now >= t0 + 1999000 && W.now <= t0 + 2100000, "sigtimedwait with a timeout of 2 s came back after %.2f s", (W.now - t0) / 1e6);
      break;
    }
    ev(E_APP_RES, OP_MISC, r, si.si_value.sival_int); got++;
    CHECK("C14", r == wait_sig || r == rt_sig, "wait returned signal %d, which the client accepts or nobody waits for", r);
    if (!RWT && got >= 3) break;
    bool all = true; int want = 0; for (int i = 0; i < RWN; i++) want += RW[i] == wait_sig || RW[i] == rt_sig; all = got >= want; if (!RWT && all) break;
  }
  (void)begin;
  t->exp_how = 1; t->exp_status = 0; ev(E_APP_OP, OP_EXIT, K_RETURN);
  return 0;
}
static void rw_finish() {
  // every signal sent arrives once at the one it is for
  int n[65] = {0}, g[65] = {0}; for (int i = 0; i < RWN; i++) n[RW[i]]++;
  for (int i = 0; i < NLOG; i++) { if (LOG[i].type == E_APP_RES && LOG[i].a == OP_MISC) g[LOG[i].b]++; if (LOG[i].type == E_CLIENT_HANDLER || LOG[i].type == E_APP_HANDLER) g[LOG[i].a]++; }
  const int chk[] = {wait_sig, rt_sig, cl_sig};
  for (int s : chk) { bool lost = g[s] < n[s]; int most = n[s]; if (lost && s == cl_sig) lost = false; CHECK("C14", !lost || s != rt_sig, "signal %d was sent %d times, the application got %d", s, n[s], g[s]); if (n[s]) CHECK("C14", s == cl_sig || g[s] >= 1 || RWT, "signal %d never reached the application", s); CHECK("C14", g[s] <= most, "signal %d was sent %d times but delivered %d times", s, n[s], g[s]); }
}
static void s_rw() {
  app_setup(); reset_model(); AP.no_thread_checks = true; RWN = 1 + pick(3); rt_sig = 45; const int a[] = {wait_sig, rt_sig, cl_sig, out_sig}; bool any = false; for (int i = 0; i < RWN; i++) { RW[i] = a[pick(4)]; any |= i == 0 ? 0 : 0; any |= RW[i] == wait_sig || RW[i] == rt_sig; }
  int k = pick(3); RWT = k == 2; WF = k == 1;
  int nw = 0; for (int i = 0; i < RWN; i++) nw += RW[i] == wait_sig;
  if (!RWT && (!any || nw > 1)) prune();   // a standard signal is queued only once
  O.early_wake = false;
}
SCENARIO(wait_real, s_rw, rw_main, rw_finish, "signals sent from outside at any time against the three functions")

static int find_begin_end() { for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_CBEND && LOG[i].a == CB_begin_process_exit) return i; return -1; }
// process exit while a thread waits in each of the three functions
static int XF_, XK;
static void *waiter(Spec *) {
  sigset_t set; if (XK == 0) sigfillset(&set); else { sigemptyset(&set); sigaddset(&set, wait_sig); } siginfo_t si; int sig; struct timespec to = {300, 0};
  for (;;) { int r; if (XF_ == 0) { sig = 0; A.sigwait(&set, &sig); r = sig; } else if (XF_ == 1) r = A.sigwaitinfo(&set, &si); else r = A.sigtimedwait(&set, &si, &to); ev(E_APP_RES, OP_MISC, r); }
}
static int wx_main(int, char **, char **) { app_create(K_CUSTOM, 0, waiter); if (RWN) app_create(K_CUSTOM, 1, waiter); app_barrier(1 + RWN); if (XK == 2) { end_op(K_UEXIT, 5); } end_op(K_EXIT, 5); return 0; }
static void wx_finish() {
  for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_APP_RES && LOG[i].a == OP_MISC) CHECK("C14", LOG[i].b != SHOOT, "T%d: the notification of process exit was returned to the application by %s", LOG[i].thr, XF_ == 0 ? "sigwait" : XF_ == 1 ? "sigwaitinfo" : "sigtimedwait");
  for (int t = 1; t < W.nthr; t++) { int n = 0, st = -1; for (int i = 0; i < NLOG; i++) { if (LOG[i].thr == t && LOG[i].type == CB_fini_thread) n++; if (LOG[i].thr == t && LOG[i].type == E_APP_START) st = i; }
    int b = find_begin_end(); if (st >= 0 && b >= 0 && st < b) CHECK("C14", n == 1, "T%d, which waits for signals, got %d fini-thread callbacks", t, n); else CHECK("C14", n <= 1, "T%d, which waits for signals, got %d fini-thread callbacks", t, n); }
  check_all();
}
static void s_wx() { app_setup(); reset_model(); XF_ = pick(3); XK = pick(3); RWN = pick(2); AP.sync = pick(2); if (pick(2)) AP.slow_fini_thread = 2000000; }
SCENARIO(wait_exit, s_wx, wx_main, wx_finish, "process exit while one or two threads wait for signals")

// ---------------------------------------------------------------- shootdown signal
static char SDBUF[64]; static const char *SDENV; static int SDK;
static int sd_main(int, char **, char **) { app_create(SDK, 20); app_barrier(1); end_op(K_EXIT, 5); return 0; }
static bool fuzzy(const char *s) { // more than a plain decimal number: the documentation says nothing
  if (!s) return false; const char *p = s; while (*p >= '0' && *p <= '9') p++; return *p != 0 && *s >= '0' && *s <= '9';
}
static void sd_finish() {
  int n = 0; for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_SYS_KILL && LOG[i].thr != LOG[i].a) { n++; if (!fuzzy(SDENV) && !(SDENV && (*SDENV == '+' || *SDENV == ' '))) CHECK("C20", LOG[i].b == SHOOT, "the shootdown signal is %ld with MONITOR_SHOOTDOWN_SIGNAL=\"%s\", it should be %d", LOG[i].b, SDENV ? SDENV : "(unset)", SHOOT); }
  int fi = 0; for (int i = 0; i < NLOG; i++) fi += LOG[i].type == CB_fini_thread && LOG[i].thr == 1;
  CHECK("C20", n > 0, "no thread was signalled at exit");
  CHECK("C20", fi == 1, "with MONITOR_SHOOTDOWN_SIGNAL=\"%s\" the thread got %d fini-thread callbacks", SDENV ? SDENV : "(unset)", fi);
  CHECK("C20", W.end_kind == END_EXIT && W.end_status == 5, "with MONITOR_SHOOTDOWN_SIGNAL=\"%s\" the process ended with kind %d status %ld", SDENV ? SDENV : "(unset)", W.end_kind, W.end_status);
  check_all();
}
static void s_sd() {
  app_setup(); int k = pick(84);
  static const char *odd[] = {"", "abc", "-1", "-15", "99999999999", "2147483648", "+10", " 12", "12abc", "0x0a", "12 13", "-", "."};
  if (k == 0) SDENV = nullptr; else if (k <= 70) { snprintf(SDBUF, sizeof SDBUF, "%d", k - 1); SDENV = SDBUF; } else SDENV = odd[k - 71];
  if (SDENV) { static char e[100]; snprintf(e, sizeof e, "MONITOR_SHOOTDOWN_SIGNAL=%s", SDENV); O.env[O.nenv++] = e; }
  reset_model(); SHOOT = doc_shootdown(SDENV); SDK = pick(3) == 0 ? K_COMPUTE : pick(2) ? K_SIGWAIT : K_BLOCKED; AP.sync = 1; AP.signo = SIGTERM;
}
SCENARIO(shootdown, s_sd, sd_main, sd_finish, "every value of MONITOR_SHOOTDOWN_SIGNAL")
