// The programs of real/progs.h, as real/app.c runs them on the real system. The set of normalised traces goes to the file VERIF_TRACES.
#include "app.h"
#include "../real/progs.h"
#include <string>
#include <vector>
#include <algorithm>
#include <set>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
EXPORT int sim_raise(int sig); EXPORT void sim_abort(); EXPORT int sim_pthread_kill(pthread_t p, int sig); EXPORT int sim_atexit(void (*f)(void));
EXPORT int sim_pthread_key_create(pthread_key_t *, void (*)(void *)); EXPORT int sim_pthread_setspecific(pthread_key_t, const void *);
EXPORT pid_t sim_waitpid(pid_t, int *, int);

enum { L_MAIN = 1, L_START, L_END, L_CHILD, L_STATUS, L_JOIN, L_SYSTEM, L_HANDLER, L_CLIENT, L_SIGWAIT, L_BLOCKED, L_UNBLOCKED, L_TIMEDWAIT, L_BROADCAST, L_DTOR, L_FELL, L_SKIP };
static const char *lname[] = {"", "main", "start", "end", "child", "status", "join", "system", "handler", "client", "sigwait", "blocked", "unblocked", "sigtimedwait", "broadcast", "dtor", "fell through", ""};
static bool has_arg(int k) { return k == L_STATUS || k == L_JOIN || k == L_SYSTEM || k == L_HANDLER || k == L_CLIENT || k == L_TIMEDWAIT || k == L_BROADCAST; }
static void lg(int k, long v = 0) { ev(E_USER, 7000 + k, v); }
static pthread_key_t KEY; static bool DT; static const char *PG;
static void hnd(int s) { lg(L_HANDLER, s); }
static int cl_pass(int s, siginfo_t *, void *) { lg(L_CLIENT, s); return 1; }
static int cl_take(int s, siginfo_t *, void *) { lg(L_CLIENT, s); return 0; }
static void dtor(void *) { lg(L_DTOR); }
static void handle() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = hnd; A.sigaction(SIGUSR2, &sa, nullptr); }
static int WSTATUS;
static void *ret_body(Spec *) { lg(L_START); lg(L_END); return nullptr; }
static void *body(Spec *s) {
  sigset_t set; int sig, tid = cur()->id;
  lg(L_START); sv_set(10 + tid, 1);
  if (DT) sim_pthread_setspecific(KEY, s);
  switch (s->x) {
  case 'x': lg(L_END); ev(E_APP_END, tid, 2); A.pthread_exit(s); break;
  case 'p': for (;;) app_sleep(3600ull * 1000000);
  case 'e': end_op(K_EXIT, 5); break;
  case 'u': end_op(K_UEXIT, 6); break;
  case 'k': end_op(K_ABORTSIG, 0); break;
  case 'n': { int k = app_create(K_CUSTOM, 0, ret_body); if (k >= 0) app_join(k, nullptr); break; }
  case 'h': handle(); sim_pthread_kill(cur()->ptid, SIGUSR2); break;
  case 'w': sigfillset(&set); for (;;) { A.sigwait(&set, &sig); lg(L_SIGWAIT); }
  case 'z': sigfillset(&set); A.pthread_sigmask(SIG_SETMASK, &set, nullptr); for (;;) app_sleep(3600ull * 1000000);
  case 'f': { ev(E_APP_OP, OP_FORK, 0); pid_t r = A.fork(); if (r == 0) { lg(L_CHILD); cur()->exp_how = 1; cur()->exp_status = 0; break; } sim_waitpid(r, &WSTATUS, 0); lg(L_SKIP); break; }
  }
  lg(L_END);
  return nullptr;
}
static int life(char k) {
  lg(L_CHILD);
  switch (k) {
  case 'e': end_op(K_EXIT, 9); break;
  case 'u': end_op(K_UEXIT, 9); break;
  case 'c': { int t = app_create(K_CUSTOM, 0, ret_body); if (t >= 0) app_join(t, nullptr); end_op(K_EXIT, 9); break; }
  case 'x': end_op(K_EXEC, 0); break;
  case 'k': end_op(K_ABORTSIG, 0); break;
  }
  return 1;
}
static int conf_main(int, char **, char **) {
  int last = -1; Thr *t = cur();
  lg(L_MAIN);
  for (const char *s = PG; *s; s++) switch (*s) {
  case 'i': case 'c': { bool ign = *s == 'i'; s++; if (ign) A.disable_new_threads(); last = app_create(K_CUSTOM, 0, body, nullptr, *s); if (ign) A.enable_new_threads(); break; }
  case 'j': if (last >= 0) { int e = app_join(last, nullptr); lg(L_JOIN, e == 0); } break;
  case 'y': app_wait_var(10 + last, 1); app_sleep(20000); break;
  case 'f': case 'v': { char k = s[1]; ev(E_APP_OP, OP_FORK, 0); pid_t r = *s == 'v' ? A.vfork() : A.fork(); s++; if (r == 0) { life(k); t->exp_how = 1; t->exp_status = 8; ev(E_APP_OP, OP_EXIT, K_RETURN); return 8; } sim_waitpid(r, &WSTATUS, 0); lg(L_SKIP); break; }
  case 'g': { ev(E_APP_OP, OP_FORK, 1); pid_t r = A.real_fork(); if (r == 0) { lg(L_CHILD); end_op(K_UEXIT, 9); } sim_waitpid(r, &WSTATUS, 0); lg(L_SKIP); break; }
  case 's': lg(L_SYSTEM, A.system("exit 3")); break;
  case 'S': lg(L_SYSTEM, A.system(nullptr) != 0); break;
  case 'o': { void *h = A.dlopen(nullptr, 1); if (h) A.dlclose(h); break; }
  case 'q': handle(); sim_raise(SIGUSR2); break;
  case 'Q': handle(); A.m_sigaction(SIGUSR2, cl_pass, 0, nullptr); sim_raise(SIGUSR2); break;
  case 'N': handle(); A.m_sigaction(SIGUSR2, cl_take, 0, nullptr); sim_raise(SIGUSR2); break;
  case 'G': sim_raise(SIGURG); break;
  case 'm': { sigset_t b, o; sigemptyset(&b); sigaddset(&b, SIGUSR2); handle(); A.sigprocmask(SIG_BLOCK, &b, &o); sim_raise(SIGUSR2); lg(L_BLOCKED); A.sigprocmask(SIG_SETMASK, &o, nullptr); lg(L_UNBLOCKED); break; }
  case 'W': { sigset_t b; struct timespec ts = {5, 0}; sigemptyset(&b); sigaddset(&b, SIGUSR2); A.sigprocmask(SIG_BLOCK, &b, nullptr); sim_raise(SIGUSR2); lg(L_TIMEDWAIT, A.sigtimedwait(&b, nullptr, &ts)); break; }
  case 'B': handle(); lg(L_BROADCAST, A.broadcast_signal(SIGUSR2)); app_sleep(50000); break;
  case 'D': sim_pthread_key_create(&KEY, dtor); DT = true; break;
  case 'E': end_op(K_EXIT, 3); break;
  case 'U': end_op(K_UEXIT, 4); break;
  case 'V': end_op(K_UEXIT2, 4); break;
  case 'R': t->exp_how = 1; t->exp_status = 2; ev(E_APP_OP, OP_EXIT, K_RETURN); return 2;
  case 'P': end_op(K_PEXIT, 0); break;
  case 'X': end_op(K_EXEC, 0); break;
  case 'F': end_op(K_FAULT, 0); break;
  case 'K': end_op(K_ABORTSIG, 0); break;
  case 'A': t->exp_how = 2; t->exp_status = SIGABRT; ev(E_APP_OP, OP_EXIT, K_ABORTSIG); sim_abort(); break;
  }
  lg(L_FELL);
  return 77;
}
static std::set<std::string> *SEEN;
static void conf_finish() {
  const char *f = getenv("VERIF_TRACES"); if (!f) return;
  // the process the execution followed, from its beginning or from the fork on
  std::string out;
  for (int p = 0; p <= W.proc; p++) {
    std::vector<std::string> th;
    for (int t = 0; t < W.nthr; t++) {
      std::string s; bool any = false;
      for (int i = 0; i < NLOG; i++) { Event *e = &LOG[i]; if (e->thr != t || e->proc != p) continue; char b[80]; b[0] = 0;
        if (e->type > 0 && e->type < CB_COUNT && e->type != CB_wrap_main) { snprintf(b, 80, "%s", evname(e->type) + 3); if (e->type == CB_begin_process_exit || e->type == CB_fini_process) sprintf(b + strlen(b), " %ld", e->a); }
        if (e->type == E_USER && e->a > 7000 && e->a < 7000 + L_SKIP) { if (has_arg(e->a - 7000)) snprintf(b, 80, "%s %ld", lname[e->a - 7000], e->b); else snprintf(b, 80, "%s", lname[e->a - 7000]); }
        if (b[0]) { if (any) s += ","; s += b; any = true; } }
      if (any) th.push_back(s);
    }
    std::sort(th.begin(), th.end());
    if (p) out += " | ";
    for (size_t i = 0; i < th.size(); i++) { if (i) out += ";"; out += th[i]; }
  }
  char b[64]; sprintf(b, " # %d %ld %d\n", W.end_kind, W.end_status, W.proc); out += b;
  if (!SEEN) SEEN = new std::set<std::string>;
  if (!SEEN->insert(out).second) return;
  int fd = open(f, O_WRONLY | O_APPEND | O_CREAT, 0600); if (fd >= 0) { if (write(fd, out.data(), out.size())) {} close(fd); }
}
static void s_conf() {
  app_setup(); PG = PROGS[PARAM]; DT = false; AP.no_thread_checks = true; S.on_dlopen = [](const char *, int) { static int h; return (void *)&h; };
  // which side of a fork is followed is a choice; the parent's wait gives the status of the real program's child
  S.on_waitpid = [](pid_t pid, int *st, int) { *st = 0x300; return pid; }; O.follow = 0; O.exec_result = 0;
  if (strchr(PG, 's')) O.follow = 0;
}
SCENARIO(conf, s_conf, conf_main, conf_finish, "a program of real/progs.h")
