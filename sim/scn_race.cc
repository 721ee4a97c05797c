// Two threads in the same function of the library at once: each gets what it asked for.
#include "app.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
EXPORT int sim_raise(int sig);
#define NEL(a) ((int)(sizeof a / sizeof a[0]))
static const u64 NOMASK = sbit(SIGKILL) | sbit(SIGSTOP) | sbit(32) | sbit(33);
static int RT_ID;                                    // the side thread
static int me() { return W.cur == 0 ? 0 : 1; }
static void (*BODY)();
static void *side(Spec *s) { BODY(); return (void *)(long)s->status; }
// main and one thread run the same operation; the barrier makes the common part start with both alive
static int both_main(int, char **, char **) {
  RT_ID = app_create(K_CUSTOM, 11, side); app_barrier(1);
  BODY();
  if (RT_ID >= 0) { void *r = nullptr; app_join(RT_ID, &r); CHECK("C05", (long)r == 11, "pthread_join gives %ld instead of 11", (long)r); }
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3;
}
static void both_setup(void (*body)()) { app_setup(); BODY = body; AP.sync = 1; }

// ---------------------------------------------------------------- pthread_create in two threads
enum { R_NULL, R_ATTR, R_OFF, R_IGN, R_FAIL, R_N };
static int CK[2], CPOL; static bool CIN[2]; static pthread_attr_t CA[2]; static size_t CSIZE[2], CGUARD[2], CDEF;
static const pthread_attr_t *cattr(int i) { return CK[i] == R_NULL ? nullptr : &CA[i]; }
static size_t csize(const pthread_attr_t *a) { size_t s = CDEF; if (a) pthread_attr_getstacksize(a, &s); return s; }
static size_t cguard(const pthread_attr_t *a) { size_t s = 4096; if (a) pthread_attr_getguardsize(a, &s); return s; }
static size_t corig(int i) { return CK[i] == R_NULL ? CDEF : CSIZE[i]; }
static size_t cpolicy(size_t n) { return CIN[me()] && CPOL ? n + 4096 * (1 + me()) : n; }
static void *cpre() { return CIN[me()] && CK[me()] == R_IGN ? (void *)-1 : (void *)(0x50000l + NLOG); }
static void cinfo(long size, long) {
  int i = me(); if (!CIN[i]) return;
  struct { void *ret, *start; } m = {nullptr, nullptr}; int r = A.get_new_thread_info(&m);
  CHECK("C06", r == 0 && m.start == cur()->app_arg, "two threads create: monitor_get_new_thread_info gives start routine %p in T%d, pthread_create was called with %p", m.start, W.cur, cur()->app_arg);
  CHECK("C06", CK[i] != R_OFF, "two threads create: a callback in T%d, which has new threads disabled", W.cur); (void)size;
}
static void csizecb(long size, long b) { cinfo(size, b); int i = me(); if (CIN[i]) CHECK("C05", (size_t)size == corig(i), "two threads create: monitor_reset_stacksize of T%d got %ld, the application's size is %zu", W.cur, size, corig(i)); }
static void ccreate(Thr *t, const pthread_attr_t *attr, start_fn *, void *) {
  if (t) t->spec = AP.pending[W.cur];
  int i = me(); if (!CIN[i]) return;
  size_t want = corig(i); if (CK[i] != R_OFF && CK[i] != R_IGN && CPOL) want += 4096 * (1 + i);
  CHECK("C05", csize(attr) == want, "two threads create: the thread of T%d gets a stack of %zu instead of %zu", W.cur, csize(attr), want);
  if (CK[i] != R_NULL) CHECK("C05", cguard(attr) == CGUARD[i], "two threads create: the thread of T%d gets another guard size than the application's", W.cur);
}
static u64 CMASK[2];
static void *cthread(Spec *s) {
  CHECK("C05", cur()->mask == CMASK[s->x], "a new thread starts with signal mask %#lx, its creator has %#lx", (long)cur()->mask, (long)CMASK[s->x]);
  probe("two threads create: new thread"); return (void *)(long)s->status;
}
static void create_body() {
  int i = me(); Thr *t = cur(); sigset_t s; sigemptyset(&s); sigaddset(&s, i ? SIGUSR2 : SIGUSR1); A.pthread_sigmask(SIG_BLOCK, &s, nullptr); CMASK[i] = t->mask;
  if (CK[i] == R_OFF) A.disable_new_threads();
  if (CK[i] == R_FAIL) O.create_fault = 2;
  CIN[i] = true; int k = app_create(K_CUSTOM, 50 + i, cthread, cattr(i), i); CIN[i] = false;
  if (CK[i] == R_FAIL) O.create_fault = 0;
  if (CK[i] == R_OFF) A.enable_new_threads();
  CHECK("C05", t->mask == CMASK[i], "two threads create: T%d's signal mask is %#lx, before pthread_create it was %#lx", W.cur, (long)t->mask, (long)CMASK[i]);
  CHECK("C05", csize(&CA[i]) == CSIZE[i] && cguard(&CA[i]) == CGUARD[i], "two threads create: the attribute object of T%d has stack size %zu instead of %zu", W.cur, csize(&CA[i]), CSIZE[i]);
  struct { void *r, *s; } m; CHECK("C06", A.get_new_thread_info(&m) != 0, "two threads create: monitor_get_new_thread_info succeeds after pthread_create");
  probe("two threads create: creator");
  if (k >= 0) { void *r = nullptr; app_join(k, &r); CHECK("C05", (long)r == 50 + i, "two threads create: pthread_join of T%d gives %ld instead of %d", k, (long)r, 50 + i); }
}
static void s_thr_race() {
  both_setup(create_body);
  for (int i = 0; i < 2; i++) { CK[i] = pick(R_FAIL); CIN[i] = false; pthread_attr_init(&CA[i]); CSIZE[i] = 131072 * (i + 1); CGUARD[i] = 8192 * (i + 1); pthread_attr_setstacksize(&CA[i], CSIZE[i]); pthread_attr_setguardsize(&CA[i], CGUARD[i]); }
  pthread_attr_t d; pthread_attr_init(&d); pthread_attr_getstacksize(&d, &CDEF); CPOL = pick(2);
  S.on_create = ccreate; H.pre_create_ret = cpre; H.stacksize = cpolicy; H.in[CB_thread_pre_create] = H.in[CB_thread_post_create] = cinfo; H.in[CB_reset_stacksize] = csizecb;
}
SCENARIO(thr_race, s_thr_race, both_main, check_all, "two threads in pthread_create at once, with different attributes, masks and clients' answers")

// ---------------------------------------------------------------- exec in two threads
enum { F_EXECL, F_EXECLP, F_EXECLE, F_EXECV, F_EXECVP, F_EXECVE, F_N };
static const char *fname[] = {"execl", "execlp", "execle", "execv", "execvp", "execve", "monitor_real_execve"};
static char *XA[2][8]; static char *XE[2][8]; static char XB[2][8][8]; static int XN[2], XF[2], NX[2]; static const char *XP[2]; static bool XREAL; static char *XW[2][8];
static void xhook(int, const char *path, char *const argv[], char *const envp[], int) {
  int i = me(); NX[i]++; const char *P = XREAL ? "C22" : "C09", *f = fname[XREAL ? 6 : XF[i]];
  CHECK(P, path && !strcmp(path, XP[i]), "two threads exec: %s of T%d passes the path \"%.60s\" to the system instead of \"%.60s\"", f, W.cur, path ? path : "(null)", XP[i]);
  int n = 0; for (; n < XN[i]; n++) CHECK(P, argv && argv[n] && !strcmp(argv[n], XB[i][n]), "two threads exec: %s of T%d passes argument %d as \"%.20s\" instead of \"%s\"", f, W.cur, n, argv && argv[n] ? argv[n] : "(null)", XB[i][n]);
  CHECK(P, !argv[n], "two threads exec: %s of T%d passes an additional argument \"%.20s\"", f, W.cur, argv[n]);
  char *const *want = XREAL ? XW[i] : XF[i] == F_EXECLE || XF[i] == F_EXECVE ? XE[i] : sim_environ;
  for (n = 0; want[n]; n++) CHECK(P, envp && envp[n] && !strcmp(envp[n], want[n]), "two threads exec: %s of T%d: environment entry %d is \"%.20s\" instead of \"%.20s\"", f, W.cur, n, envp && envp[n] ? envp[n] : "(end)", want[n]);
  CHECK(P, !envp[n], "two threads exec: %s of T%d: the environment has the additional entry \"%.20s\"", f, W.cur, envp[n]);
}
static void exec_body() {
  int i = me(), at = NLOG, r; Thr *t = cur(); const char *p = XP[i]; char **a = XA[i], **e = XE[i]; bool srch = XF[i] == F_EXECLP || XF[i] == F_EXECVP; const char *P = XREAL ? "C22" : "C09";
  int want = sys_exec_result(p, srch); t->err = 4711; NX[i] = 0;
  if (!XREAL) { t->exp_how = 3; t->exp_status = 0; }
  if (want == 0 && !XREAL) ev(E_APP_OP, OP_EXIT, K_EXEC); else ev(E_APP_OP, OP_EXEC, XF[i], want);
  if (XREAL) r = A.real_execve(p, a, e);
  else switch (XF[i]) {
  case F_EXECL: r = i ? A.execl(p, a[0], a[1], a[2], nullptr) : A.execl(p, a[0], a[1], nullptr); break;
  case F_EXECLP: r = i ? A.execlp(p, a[0], a[1], a[2], nullptr) : A.execlp(p, a[0], a[1], nullptr); break;
  case F_EXECLE: r = i ? A.execle(p, a[0], a[1], a[2], nullptr, e) : A.execle(p, a[0], a[1], nullptr, e); break;
  case F_EXECV: r = A.execv(p, a); break;
  case F_EXECVP: r = A.execvp(p, a); break;
  default: r = A.execve(p, a, e);
  }
  CHECK(P, NX[i] == 1, "two threads exec: %s of T%d called the system's exec %d times", fname[XREAL ? 6 : XF[i]], W.cur, NX[i]);
  CHECK(P, r == -1 && t->err == (want ? want : ENOMEM), "two threads exec: %s of T%d returned %d with errno %d, the system's gave -1 with %d", fname[XREAL ? 6 : XF[i]], W.cur, r, t->err, want ? want : ENOMEM);
  for (int k = at; k < NLOG && want; k++) if (LOG[k].thr == t->id && LOG[k].type < CB_COUNT && LOG[k].type != CB_fini_thread) fail(P, "two threads exec: %s of T%d fails with errno %d but gave the callback %s", fname[XREAL ? 6 : XF[i]], W.cur, want, evname(LOG[k].type));
  ev(E_APP_RES, OP_EXEC, r); t->exp_how = 0;
}
static void exec_race_finish() {
  for (int i = 0; i < NLOG && !XREAL; i++) if (LOG[i].type == E_SYS_EXEC && LOG[i].b) {
    bool b = false, f = false; for (int j = 0; j < i; j++) { b |= LOG[j].type == CB_begin_process_exit && LOG[j].a == 3; f |= LOG[j].type == E_CBEND && LOG[j].a == CB_fini_process; }
    CHECK("C09", b && f, "two threads exec: %s runs the new program without the process exit callbacks", fname[XF[LOG[i].thr != 0]]);
  }
  check_all();
}
static void xcommon() {
  both_setup(exec_body); XREAL = false; S.on_exec = xhook;
  O.env[O.nenv++] = "PATH=/nodir:/bin"; O.env[O.nenv++] = "LD_PRELOAD=libmonitor.so";
  for (int i = 0; i < 2; i++) {
    XN[i] = 2 + i; for (int k = 0; k < 8; k++) { snprintf(XB[i][k], 8, "%c%d", 'a' + k, i); XA[i][k] = k < XN[i] ? XB[i][k] : nullptr; XE[i][k] = XW[i][k] = nullptr; }
    int n = 0; if (i) XE[i][n++] = (char *)"LD_PRELOAD=libmonitor.so"; XE[i][n++] = (char *)(i ? "E1=1" : "E0=0"); if (!i) XE[i][n++] = (char *)"F0=0"; XE[i][n++] = (char *)(i ? "G1=1" : "LD_PRELOAD=x"); if (i) { XE[i][n++] = (char *)"H1=1"; XE[i][n++] = (char *)"I1=1"; }
    int w = 0; for (int k = 0; k < n; k++) if (strncmp(XE[i][k], "LD_PRELOAD=", 11)) XW[i][w++] = XE[i][k];
  }
}
static void s_exec_race() {
  xcommon(); static const char *abs[] = {"/bin/nothing", "/bin/data", "/bin/longprog"}, *rel[] = {"nothing", "data", "longprog"}; O.files[O.nfiles++] = {"/bin/longprog", 1}; bool s[2];
  XF[0] = pick(F_N); XF[1] = pick(F_N);
  for (int i = 0; i < 2; i++) { s[i] = XF[i] == F_EXECLP || XF[i] == F_EXECVP; int k = pick(3); XP[i] = s[i] ? rel[k] : abs[k]; }
}
SCENARIO(exec_race, s_exec_race, both_main, exec_race_finish, "exec in two threads at once, of different files with different arguments")
static void s_real_race() { xcommon(); XREAL = true; XF[0] = XF[1] = F_EXECVE; XP[0] = "/none"; XP[1] = pick(2) ? "/bin/data" : "/bin/prog"; O.exec_result = 1; }
SCENARIO(real_race, s_real_race, both_main, exec_race_finish, "monitor_real_execve in two threads at once")

// ---------------------------------------------------------------- signal actions in two threads
static int GS[2], GK[2], GC; static int GN[2], GCN[2]; static u64 GMASK[2];
static void ghandler(int sig, siginfo_t *si, bool info) {
  int i = me(); GN[i]++; ev(E_APP_HANDLER, sig, info);
  CHECK("C11", sig == GS[i], "two threads: the handler in T%d got signal %d, it was sent %d", W.cur, sig, GS[i]);
  CHECK("C11", info == (GK[i] == 1), "two threads: T%d runs the handler of the other thread's signal", W.cur);
  if (info) CHECK("C11", si && si->si_signo == GS[i] && si->si_value.sival_int == 70 + i, "two threads: the handler in T%d got the siginfo of another signal", W.cur);
  if (GK[i] != 3) CHECK("C11", (cur()->mask & sbit(i ? SIGHUP : SIGALRM)) && !(cur()->mask & sbit(i ? SIGALRM : SIGHUP)), "two threads: the handler in T%d runs with mask %#lx", W.cur, (long)cur()->mask);
}
static void gplain(int s) { CHECK("C11", me() == 0, "two threads: T%d runs the handler that the main thread has set", W.cur); ghandler(s, nullptr, false); }
static void gplain1(int s) { CHECK("C11", me() == 1, "two threads: the main thread runs the handler that the other one has set"); ghandler(s, nullptr, false); }
static void (*gp())(int) { return me() ? gplain1 : gplain; }
static void ginfo(int s, siginfo_t *i, void *) { ghandler(s, i, true); }
static int gclient(int sig, siginfo_t *si, void *) {
  int i = me(); GCN[i]++; ev(E_CLIENT_HANDLER, sig);
  CHECK("C11", sig == GS[i] && si && si->si_signo == sig && si->si_value.sival_int == 70 + i, "two threads: the client's handler in T%d got another signal's siginfo", W.cur);
  return GC == 1 ? 0 : 1;
}
static void sig_body() {
  int i = me(); struct sigaction a, o; memset(&a, 0, sizeof a); memset(&o, 0x5a, sizeof o);
  if (GK[i] == 1) { a.sa_sigaction = ginfo; a.sa_flags = SA_SIGINFO; } else a.sa_handler = GK[i] == 0 ? gp() : SIG_IGN;
  if (GK[i] == 3) a.sa_handler = gp(); else sigaddset(&a.sa_mask, i ? SIGHUP : SIGALRM);
  int r = 0; if (GK[i] == 3) o.sa_handler = A.signal(GS[i], gp()); else r = A.sigaction(GS[i], &a, &o);
  CHECK("C11", r == 0 && o.sa_handler == SIG_DFL, "two threads: sigaction of T%d returned %d, old handler %p", W.cur, r, (void *)o.sa_handler);
  for (int k = 0; k < 2; k++) {
    GN[i] = GCN[i] = 0; send_thread(W.cur, GS[i], SI_QUEUE, 70 + i); deliver_signals();
    CHECK("C11", GCN[i] == (GC ? 1 : 0), "two threads: the client's handler ran %d times in T%d", GCN[i], W.cur);
    CHECK("C11", GN[i] == (GC == 1 || GK[i] == 2 ? 0 : 1), "two threads: the application's handler ran %d times in T%d", GN[i], W.cur);
  }
  if (GK[i] == 3) CHECK("C11", A.signal(GS[i], gp()) == gp(), "two threads: signal gives T%d another handler than it has set", W.cur);
  memset(&o, 0x5a, sizeof o); r = A.sigaction(GS[i], nullptr, &o);
  CHECK("C11", r == 0 && o.sa_handler == a.sa_handler && (GK[i] == 3 || (o.sa_flags == a.sa_flags && set2bits(&o.sa_mask) == set2bits(&a.sa_mask))), "two threads: sigaction gives T%d another action than it has set", W.cur);
}
static int sig_race_main(int c, char **v, char **e) { if (GC) for (int i = 0; i < 2; i++) A.m_sigaction(GS[i], gclient, 0, nullptr); return both_main(c, v, e); }
static void s_sig_race() { both_setup(sig_body); GC = pick(3); GS[0] = SIGUSR1; GS[1] = SIGUSR2; for (int i = 0; i < 2; i++) GK[i] = pick(4); }
SCENARIO(sig_race, s_sig_race, sig_race_main, check_all, "two threads set and receive different signals at once")

// ---------------------------------------------------------------- masks in two threads
static int KH[2], KF[2], KS[2]; static u64 KEEP;
static int kc(int, siginfo_t *, void *) { return 0; }
static void mask_body() {
  int i = me(); Thr *t = cur(); static const int how[] = {SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK}; static const u64 set[] = {sbit(SIGUSR1) | sbit(SIGPROF), sbit(SIGUSR2) | sbit(SIGHUP), ~0ull & ~NOMASK, 0};
  if (i) t->mask = sbit(SIGUSR2) | sbit(SIGALRM); else t->mask = sbit(SIGUSR1) | sbit(SIGHUP) | sbit(SIGPROF);
  u64 m = t->mask, s = set[KS[i]], w = KH[i] == 0 ? m | s : KH[i] == 1 ? m & ~s : s; w = (w & ~KEEP) | (m & KEEP);
  sigset_t in, in0, old; bits2set(s, &in); in0 = in; memset(&old, 0, sizeof old);
  int r = KF[i] ? A.pthread_sigmask(how[KH[i]], &in, &old) : A.sigprocmask(how[KH[i]], &in, &old); const char *f = KF[i] ? "pthread_sigmask" : "sigprocmask";
  CHECK("C13", r == 0 && set2bits(&old) == m, "two threads: %s of T%d gives the old mask %#lx, it was %#lx", f, W.cur, (long)set2bits(&old), (long)m);
  CHECK("C13", t->mask == w, "two threads: %s(%d, %#lx) of T%d on mask %#lx gives %#lx instead of %#lx", f, KH[i], (long)s, W.cur, (long)m, (long)t->mask, (long)w);
  CHECK("C13", set2bits(&in) == set2bits(&in0), "two threads: %s changes the application's set", f);
}
static int mask_race_main(int c, char **v, char **e) { A.m_sigaction(SIGPROF, kc, 0, nullptr); return both_main(c, v, e); }
static void s_mask_race() { both_setup(mask_body); KEEP = sbit(SIGPROF) | sbit(42); for (int i = 0; i < 2; i++) { KF[i] = pick(2); KH[i] = pick(3); KS[i] = pick(4); } }
SCENARIO(mask_race, s_mask_race, mask_race_main, check_all, "two threads change their masks at once")

// ---------------------------------------------------------------- waiting in two threads
static int VF[2], VC, VN[2], VL[2], VA[2][3];   // function; the client's answer; calls; the client's calls; the system's answers
static const int vsig[] = {SIGUSR1, SIGUSR2}, vcl[] = {SIGPROF, SIGVTALRM};
static int vclient(int sig, siginfo_t *si, void *) {
  int i = me(); VL[i]++; ev(E_CLIENT_HANDLER, sig);
  CHECK("C14", sig == vcl[i] && si && si->si_signo == sig && si->si_value.sival_int == 80 + i, "two threads wait: the client's handler in T%d got signal %d, value %d instead of %d, %d", W.cur, sig, si ? si->si_value.sival_int : -1, vcl[i], 80 + i);
  return VC == 1 ? 0 : 1;
}
static int vanswer(u64 set, siginfo_t *info, const struct timespec *to) {
  int i = me(); u64 w = sbit(vsig[i]) | sbit(vcl[i]);
  CHECK("C14", set == w, "two threads wait: the system waits in T%d for %#lx instead of %#lx", W.cur, (long)set, (long)w);
  if (VF[i] == 2 || VF[i] == 4) CHECK("C14", to && to->tv_sec == 5 + i, "two threads wait: the system waits in T%d with another timeout than its own", W.cur); else CHECK("C14", !to, "two threads wait: a wait without timeout in T%d was given one", W.cur);
  int a = VN[i] < 2 ? VA[i][VN[i]] : 0; VN[i]++;
  auto give = [&](int sig) { if (info) { memset(info, 0, sizeof *info); info->si_signo = sig; info->si_code = SI_QUEUE; info->si_value.sival_int = 80 + i; } point(); return sig; };
  if (a == 0) return give(vsig[i]); if (a == 1) return give(vcl[i]);
  cur()->err = EINTR; return -1;
}
static void wait_body() {
  int i = me(); sigset_t s; sigemptyset(&s); sigaddset(&s, vsig[i]); sigaddset(&s, vcl[i]); struct timespec to = {5 + i, 0}; siginfo_t si; memset(&si, 0x77, sizeof si); int sig = 0, r; bool nul = VF[i] >= 3;
  VN[i] = VL[i] = 0; int want = 0, ncl = 0, k; for (k = 0; !want; k++) { int a = k < 2 ? VA[i][k] : 0; if (a == 2) continue; if (a == 1) { if (VC) ncl++; if (VC == 1) continue; want = vcl[i]; break; } want = vsig[i]; break; }
  if (VF[i] == 0) { r = A.sigwait(&s, &sig); r = r ? -1 : sig; } else if (VF[i] == 2 || VF[i] == 4) r = A.sigtimedwait(&s, nul ? nullptr : &si, &to); else r = A.sigwaitinfo(&s, nul ? nullptr : &si);
  CHECK("C14", r == want, "two threads wait: T%d got %d instead of signal %d", W.cur, r, want);
  CHECK("C14", VL[i] == ncl && VN[i] == k + 1, "two threads wait: T%d: %d calls of the client's handler and %d waits instead of %d and %d", W.cur, VL[i], VN[i], ncl, k + 1);
  if (VF[i] == 1 || VF[i] == 2) CHECK("C14", si.si_signo == want && si.si_value.sival_int == 80 + i, "two threads wait: T%d got the siginfo of another signal", W.cur);
}
static int wait_race_main(int c, char **v, char **e) { if (VC) for (int i = 0; i < 2; i++) A.m_sigaction(vcl[i], vclient, 0, nullptr); return both_main(c, v, e); }
static void s_wait_race() { both_setup(wait_body); VC = pick(3); for (int i = 0; i < 2; i++) { VF[i] = pick(5); VA[i][0] = pick(3); VA[i][1] = VA[i][0] ? pick(i ? 2 : 3) : 0; } S.on_sigwait = vanswer; }
SCENARIO(wait_race, s_wait_race, wait_race_main, check_all, "two threads wait for different signals at once")
