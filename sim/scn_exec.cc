// exec, system and the client's real_* functions.
#include "app.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#include <string>
#include <vector>
EXPORT int sim_atexit(void (*f)(void));
const char *sim_find_getenv(const char *n);
#define NEL(a) ((int)(sizeof a / sizeof a[0]))

// ---------------------------------------------------------------- exec
enum { F_EXECL, F_EXECLP, F_EXECLE, F_EXECV, F_EXECVP, F_EXECVE, F_N };
static const char *fname[] = {"execl", "execlp", "execle", "execv", "execvp", "execve"};
static bool searches(int f) { return f == F_EXECLP || f == F_EXECVP; }
static int XF, XN;                       // function, number of arguments (-1: NULL array)
static const char *XPATH; static char *ARGS[160]; static char ARGBUF[160][8]; static char *XENV[] = {(char *)"A=1", (char *)"LD_PRELOAD=x.so", (char *)"B=", nullptr};
static char *NOENV[] = {nullptr}, **XE = XENV; static int NEXEC; static char LONGNAME[6000], LONGPATH[20000];
static int STATE_CB;                      // callbacks logged before the call

static void exec_hook(int which, const char *path, char *const argv[], char *const envp[], int err) {
  (void)which; (void)err;
  NEXEC++;
  CHECK("C09", (path == nullptr) == (XPATH == nullptr) && (!path || !strcmp(path, XPATH)), "%s passes the path \"%.60s\" to the system, the application gave \"%.60s\"", fname[XF], path ? path : "(null)", XPATH ? XPATH : "(null)");
  if (XN < 0) CHECK("C09", argv == nullptr, "%s passes an argument list instead of NULL", fname[XF]);
  else {
    CHECK("C09", argv != nullptr, "%s passes no argument list", fname[XF]);
    for (int i = 0; i < XN; i++) CHECK("C09", argv[i] && argv[i] == ARGS[i] && !strcmp(argv[i], ARGBUF[i]), "%s with %d arguments: argument %d is not the application's", fname[XF], XN, i);
    CHECK("C09", argv[XN] == nullptr, "%s with %d arguments: the list does not end there", fname[XF], XN);
  }
  char *const *want = XF == F_EXECLE || XF == F_EXECVE ? XE : sim_environ;
  if (!want) { CHECK("C09", !envp || !envp[0], "%s: an environment although the application gave none", fname[XF]); return; }
  int n = 0; for (; want[n]; n++) CHECK("C09", envp && envp[n] && !strcmp(envp[n], want[n]), "%s: environment entry %d is not the application's", fname[XF], n);
  CHECK("C09", envp && envp[n] == nullptr, "%s: the environment has more entries than the application's", fname[XF]);
}
#define A10(k) ARGS[k], ARGS[k + 1], ARGS[k + 2], ARGS[k + 3], ARGS[k + 4], ARGS[k + 5], ARGS[k + 6], ARGS[k + 7], ARGS[k + 8], ARGS[k + 9]
#define ALL A10(0), A10(10), A10(20), A10(30), A10(40), A10(50), A10(60), A10(70), A10(80), A10(90), A10(100), A10(110), A10(120), A10(130), A10(140), A10(150)
static int call_exec(int f, const char *path, int n) {
  XF = f; XPATH = path; XN = n;
  for (int i = 0; i < 160; i++) { snprintf(ARGBUF[i], 8, "a%d", i); ARGS[i] = i < n ? ARGBUF[i] : (char *)0xdead0000ul + i; }
  if (n >= 0) ARGS[n] = nullptr;
  switch (f) {
  case F_EXECL: return A.execl(path, ALL);
  case F_EXECLP: return A.execlp(path, ALL);
  case F_EXECLE: ARGS[n + 1] = (char *)XE; return A.execle(path, ALL);
  case F_EXECV: return A.execv(path, n < 0 ? nullptr : ARGS);
  case F_EXECVP: return A.execvp(path, n < 0 ? nullptr : ARGS);
  case F_EXECVE: return A.execve(path, n < 0 ? nullptr : ARGS, XE);
  }
  return 0;
}
static bool exempt_dir;   // the only candidate is a directory: access() takes it for executable
static void do_exec(int f, const char *path, int n) {
  Thr *t = cur(); int before = NLOG; NEXEC = 0;
  int want = sys_exec_result(path, searches(f));
  t->exp_how = 3; t->exp_status = 0; t->err = 4711;
  if (want == 0) ev(E_APP_OP, OP_EXIT, K_EXEC); else ev(E_APP_OP, OP_EXEC, f, want);
  int r = call_exec(f, path, n);
  CHECK("C09", NEXEC == 1, "%s called the system's exec %d times", fname[f], NEXEC);
  CHECK("C09", r == -1 && t->err == (want ? want : ENOMEM), "%s returned %d with errno %d, the system's gave -1 with %d", fname[f], r, t->err, want ? want : ENOMEM);
  bool cb = false; for (int i = before; i < NLOG; i++) cb |= LOG[i].type < CB_COUNT && LOG[i].thr == t->id && LOG[i].type != CB_fini_thread;
  if (want && !exempt_dir) CHECK("C09", !cb, "%s(\"%.40s\") fails with errno %d but gave callbacks", fname[f], path ? path : "(null)", want);
  ev(E_APP_RES, OP_EXEC, r);
}
static void exec_finish() {
  // a successful exec has had its callbacks
  for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_SYS_EXEC && LOG[i].b) {
    bool b = false, f = false, l = false;
    for (int j = 0; j < i; j++) { b |= LOG[j].type == CB_begin_process_exit && LOG[j].a == 3; f |= LOG[j].type == E_CBEND && LOG[j].a == CB_fini_process; l |= LOG[j].type == E_CBEND && LOG[j].a == CB_fini_library; }
    CHECK("C09", b && f, "%s(\"%.40s\") runs the new program without the process exit callbacks (PATH \"%.40s\")", fname[XF], XPATH, sim_find_getenv("PATH") ? sim_find_getenv("PATH") : "(unset)");
    if (O.dynamic) CHECK("C09", l, "%s runs the new program without the library fini callback", fname[XF]);
  }
  if (!exempt_dir) check_all();
}
static void set_path(const char *p) {
  static char buf[20100];
  O.nenv = 0; memset(O.env, 0, sizeof O.env);
  O.env[O.nenv++] = "HOME=/root"; O.env[O.nenv++] = "LD_PRELOAD=libmonitor.so";
  if (p) { snprintf(buf, sizeof buf, "PATH=%s", p); O.env[O.nenv++] = buf; }
  O.env[O.nenv++] = "XPATH=/bin";
}
static void files(int with_cwd) {
  O.nfiles = 0;
  auto f = [](const char *p, int x) { O.files[O.nfiles].path = p; O.files[O.nfiles++].x = x; };
  f("/bin/prog", 1); f("/bin/sh", 1); f("/bin/data", 0); f("/dat/prog", 0); f("/dir/prog", 2); f("/usr/bin/uprog", 1); f("/bin", 2); f("/dat", 2); f("/dir", 2);
  if (with_cwd) { f("prog", 1); f("data", 0); }
}
static const char *mklong(char *buf, size_t n, const char *pre, const char *post) { size_t k = strlen(pre); memcpy(buf, pre, k); memset(buf + k, 'x', n - k); strcpy(buf + n, post); return buf; }
static int EFN, EAN; static const char *EFILE;
static int exec_main(int, char **, char **) { do_exec(EFN, EFILE, EAN); end_op(K_EXIT, 4); return 0; }
static void s_exec_path() {
  app_setup(); XE = XENV; S.on_exec = exec_hook; exempt_dir = false;
  files(pick(2));
  static const int len[] = {PATH_MAX - 8, PATH_MAX - 7, PATH_MAX - 6, PATH_MAX - 5, PATH_MAX - 4, PATH_MAX - 2, PATH_MAX - 1, PATH_MAX, PATH_MAX + 1, PATH_MAX + 300, 3 * PATH_MAX};
  static const char *sh[] = {nullptr, "", "/bin", "/bin/", "/nodir:/bin", "/nodir::/bin", ":/nodir", "/nodir:", "/nodir::/other", "/nodir", ":", "::::", "/dat:/bin", "/dat", "/dir:/bin", "/dir", "bin:.", ".", "/bin:/dat", "/usr/bin:", ":/bin", "/nodir:/usr/bin:/bin"};
  int k = pick(NEL(sh) + 2 * NEL(len));
  if (k < NEL(sh)) set_path(sh[k]);
  else if (k < NEL(sh) + NEL(len)) set_path(mklong(LONGPATH, len[k - NEL(sh)], "/", ":/bin"));
  else set_path(mklong(LONGPATH, len[k - NEL(sh) - NEL(len)], "/", ""));
  static const char *fl[] = {"prog", "./prog", "/bin/prog", "data", "/bin/data", "none", "/none", "", "uprog", "sh", "bin/../prog"};
  int nf = NEL(fl) + 4; int j = pick(nf);
  if (j < NEL(fl)) EFILE = fl[j]; else { static const int ln[] = {254, 255, 256, 5000}; EFILE = mklong(LONGNAME, ln[j - NEL(fl)], "y", ""); }
  EFN = pick(2) ? F_EXECVP : F_EXECLP; EAN = 2;
  // an element that is shorter than PATH_MAX but too long together with the name: glibc gives up there, others go on
  if (k >= NEL(sh) && len[(k - NEL(sh)) % NEL(len)] < PATH_MAX) exempt_dir = true;
  // only a directory of that name: its search permission is taken for the file's (documented approximation)
  if (sys_exec_result(EFILE, true) == EACCES && sim_find_getenv("PATH") && strstr(sim_find_getenv("PATH"), "/dir")) exempt_dir = true;
}
static void s_exec_file() {
  app_setup(); XE = XENV; S.on_exec = exec_hook; files(pick(2)); set_path("/bin"); exempt_dir = false; O.exec_result = 2;
  static const int fn[] = {F_EXECL, F_EXECLE, F_EXECV, F_EXECVE};
  EFN = fn[pick(4)]; EAN = 2; if (EFN == F_EXECLE || EFN == F_EXECVE) { int k = pick(3); XE = k == 0 ? XENV : k == 1 ? NOENV : nullptr; }
  static const char *fl[] = {"prog", "./prog", "/bin/prog", "/bin//prog", "data", "/bin/data", "none", "/none", "", "sh", nullptr, "/dat/prog"};
  int j = pick(NEL(fl) + 3);
  if (j < NEL(fl)) EFILE = fl[j]; else { static const int ln[] = {4094, 4095, 5500}; EFILE = mklong(LONGNAME, ln[j - NEL(fl)], "/", ""); }
}
static void s_exec_args() {
  app_setup(); XE = XENV; S.on_exec = exec_hook; files(0); set_path("/bin"); exempt_dir = false;
  static const int n[] = {0, 1, 2, 3, 10, 60, 61, 62, 63, 64, 65, 66, 100, 125, 126, 127, 128, 129, 130, 131, 140};
  EFN = pick(F_N); EAN = n[pick(NEL(n))]; if (EFN >= F_EXECV && pick(2)) EAN = -1;
  EFILE = pick(2) ? "/bin/prog" : "/none";
}
// failing execs leave the process monitored: any sequence of them, then the end
static int exec_seq_main(int, char **, char **) {
  int n = PARAM ? PARAM : 3;
  for (int i = 0; i < n; i++) {
    int k = pick(9);
    static const int fn[] = {F_EXECL, F_EXECLP, F_EXECLE, F_EXECV, F_EXECVP, F_EXECVE};
    if (k < 6) do_exec(fn[k], k & 1 ? "none" : "/bin/data", k == 2 ? 70 : 2);
    else if (k == 6) { int t = app_create(K_RETURN, 3); if (t >= 0) app_join(t, nullptr); }
    else if (k == 7) break;
    else { do_exec(F_EXECVP, "prog", 1); }   // ends here
  }
  end_op(pick(2) ? K_EXIT : K_EXEC, 6);
  return 0;
}
static void s_exec_seq() { app_setup(); XE = XENV; files(0); S.on_exec = nullptr; set_path("/nodir:/bin"); exempt_dir = false; S.on_exec = [](int w, const char *p, char *const a[], char *const e[], int er) { if (p && !strcmp(p, "/bin/prog")) { XPATH = p; return; } exec_hook(w, p, a, e, er); }; }
static void *exec_thread(Spec *) { do_exec(EFN, EFILE, 2); return nullptr; }
static int exec_thr_main(int, char **, char **) { app_create(K_COMPUTE); app_create(K_CUSTOM, 0, exec_thread); app_sleep(1000000); end_op(K_EXIT, 4); return 0; }
static void s_exec_thread() { app_setup(); XE = XENV; S.on_exec = exec_hook; files(0); set_path("/bin"); exempt_dir = false; EFN = pick(F_N); static const char *fl[] = {"/bin/prog", "/none"}; EFILE = fl[pick(2)]; O.exec_result = 2; }
SCENARIO(exec_path, s_exec_path, exec_main, exec_finish, "execvp and execlp with every kind of file name and PATH")
SCENARIO(exec_file, s_exec_file, exec_main, exec_finish, "execv, execve, execl, execle of every kind of file, also with an exec that fails unexpectedly")
SCENARIO(exec_args, s_exec_args, exec_main, exec_finish, "all exec functions with argument lists of every length around the internal sizes")
SCENARIO(exec_seq, s_exec_seq, exec_seq_main, exec_finish, "sequences of failing execs and thread creations, then the end of the process")
SCENARIO(exec_thread, s_exec_thread, exec_thr_main, exec_finish, "exec by a side thread while others run")

// ---------------------------------------------------------------- system
static struct { struct sigaction in, quit, chld; u64 mask; } ORG; static bool ORG_SET, CHECK_REAL; static int WAITS, WSTAT, WKIND, WN, CHILDPID; static const char *CMD; static int SYSCALLS; static const char *SYSP;
static int NCBS0;
#define SP (CHECK_REAL ? "C22" : "C10")
static bool same_act(const struct sigaction &a, const struct sigaction &b) { return a.sa_handler == b.sa_handler && a.sa_flags == b.sa_flags && set2bits(&a.sa_mask) == set2bits(&b.sa_mask); }
static void check_restored(const char *where) {
  if (!ORG_SET) return;
  CHECK(SP, same_act(W.act[SIGINT], ORG.in), "%s: the action of SIGINT is not as before system", where);
  CHECK(SP, same_act(W.act[SIGQUIT], ORG.quit), "%s: the action of SIGQUIT is not as before system", where);
  CHECK(SP, same_act(W.act[SIGCHLD], ORG.chld), "%s: the action of SIGCHLD is not as before system", where);
  CHECK(SP, cur()->mask == ORG.mask, "%s: the signal mask is %#lx, before system it was %#lx", where, (long)cur()->mask, (long)ORG.mask);
}
static void check_during(const char *where) {
  CHECK(SP, W.act[SIGINT].sa_handler == SIG_IGN && W.act[SIGQUIT].sa_handler == SIG_IGN, "%s: SIGINT or SIGQUIT is not ignored while the command runs", where);
  CHECK(SP, cur()->mask & sbit(SIGCHLD), "%s: SIGCHLD is not blocked while the command runs", where);
  CHECK(SP, cur()->mask == (ORG.mask | sbit(SIGCHLD)), "%s: other signals than SIGCHLD are blocked or unblocked while the command runs", where);
}
static pid_t sys_wait(pid_t pid, int *st, int opt) {
  ev(E_SYS_WAIT, pid, opt); WAITS++;
  check_during("waitpid");
  CHECK(SP, pid == CHILDPID, "system waits for process %d, its child is %d", pid, CHILDPID);
  CHECK(SP, (opt & 1) == 0, "system polls its child");
  if (WN > 0) { WN--; cur()->err = EINTR; if (st) *st = 0x1234; return -1; }
  if (WKIND) { cur()->err = ECHILD; return -1; }
  if (st) *st = WSTAT;
  return pid;
}
static char *REALENV_WANT[700]; static int NWANT;
static void sys_exec_hook(int, const char *path, char *const argv[], char *const envp[], int) {
  SYSCALLS++;
  check_restored("child before exec");
  CHECK(SP, !strcmp(path, "/bin/sh"), "system runs \"%s\"", path);
  CHECK(SP, argv && argv[0] && argv[1] && !strcmp(argv[1], "-c") && argv[2] && !strcmp(argv[2], CMD) && !argv[3], "system does not run sh -c with the command");
  CHECK(SP, !strcmp(argv[0], "/bin/sh") || !strcmp(argv[0], "sh"), "system runs the shell as \"%s\"", argv[0]);
  for (int i = 0; i < NWANT; i++) CHECK(SP, envp[i] && !strcmp(envp[i], REALENV_WANT[i]), "system: environment entry %d is \"%.30s\", it should be \"%.30s\"", i, envp[i] ? envp[i] : "(end)", REALENV_WANT[i]);
  CHECK(SP, !envp[NWANT], "system: environment has the additional entry \"%.30s\"", envp[NWANT]);
}
static void want_env(bool strip) { NWANT = 0; for (char **e = O.envp; *e; e++) if (!strip || strncmp(*e, "LD_PRELOAD=", 11)) REALENV_WANT[NWANT++] = *e; }
static void save_org() { ORG.in = W.act[SIGINT]; ORG.quit = W.act[SIGQUIT]; ORG.chld = W.act[SIGCHLD]; ORG.mask = cur()->mask; ORG_SET = true; }
static int ncbs() { int n = 0; for (int i = 0; i < NLOG; i++) n += LOG[i].type < CB_COUNT && LOG[i].type != CB_init_library; return n; }
static void do_system(bool real) {
  Thr *t = cur(); CHECK_REAL = real; save_org(); WAITS = SYSCALLS = 0; want_env(real);
  int at = NLOG, cbs = ncbs(), proc = W.proc; t->err = 4711;
  ev(E_APP_OP, OP_MISC, 77, real);
  int r = real ? A.real_system(CMD) : A.system(CMD);
  CHECK(SP, W.proc == proc, "system returned in the child");
  check_restored("after system");
  int fk = -1, nfk = 0, npre = 0, npost = 0, pree = -1, post = -1, other = 0;
  for (int i = at; i < NLOG; i++) { Event *e = &LOG[i]; if (e->thr != t->id) continue;
    if (e->type == E_SYS_FORK) { fk = i; nfk++; } else if (e->type == CB_pre_fork) npre++; else if (e->type == CB_post_fork) { npost++; post = i; } else if (e->type < CB_COUNT && e->type != CB_init_library) other++;
    if (e->type == E_CBEND && e->a == CB_pre_fork) pree = i; }
  (void)cbs;
  CHECK(SP, !other, "system gave other callbacks than pre_fork and post_fork");
  if (!CMD) {
    CHECK(SP, !!r == (O.nfiles > 0 && !strcmp(O.files[0].path, "/bin/sh")), "system(NULL) returned %d", r);
    CHECK(SP, !nfk && !npre && !npost, "system(NULL) forked or gave a callback");
    return;
  }
  CHECK(SP, nfk == 1, "system forked %d times", nfk);
  long c = LOG[fk].a;
  int want = c < 0 ? -1 : WKIND ? -1 : WSTAT;
  CHECK(SP, r == want, "system returned %#x, the command's result is %#x (fork gave %ld)", r, want, c);
  if (c < 0) CHECK(SP, t->err == EAGAIN, "system failed with errno %d, fork had EAGAIN", t->err);
  if (c >= 0 && WKIND) CHECK(SP, t->err == ECHILD, "system failed with errno %d, waitpid had ECHILD", t->err);
  if (c > 0) CHECK(SP, WAITS >= 1, "system did not wait for the command");
  if (real) CHECK(SP, npre + npost == 0, "monitor_real_system gave callbacks");
  else {
    CHECK(SP, npre == 1 && pree >= 0 && pree < fk, "system gave %d pre-fork callbacks before its fork", npre);
    CHECK(SP, npost == 1 && post > fk, "system gave %d post-fork callbacks after its fork", npost);
    CHECK(SP, LOG[post].a == c && LOG[post].b == LOG[pree].b, "monitor_post_fork got (%ld, %#lx), it should get (%ld, %#lx)", LOG[post].a, LOG[post].b, c, LOG[pree].b);
    for (int i = fk; i < post; i++) if (LOG[i].type == E_SYS_WAIT) fk = i;
    if (c > 0) CHECK(SP, fk < post, "monitor_post_fork ran before the command had ended");
  }
}
EXPORT int sim_usleep(useconds_t); EXPORT int sim_pthread_cancel(pthread_t);
static void hnd(int) {} static void hndi(int, siginfo_t *, void *) {}
static int NSYS, SYSWHO, SYSREAL, DISP, DISPQ, MASK;
static void app_state() {
  static struct sigaction sa; 
  auto set = [](int sig, int k) { memset(&sa, 0, sizeof sa);
    switch (k) { case 0: return; case 1: sa.sa_handler = SIG_IGN; break; case 2: sa.sa_handler = hnd; sigaddset(&sa.sa_mask, SIGUSR1); break; case 3: sa.sa_sigaction = hndi; sa.sa_flags = SA_SIGINFO | SA_NODEFER; break; }
    A.sigaction(sig, &sa, nullptr); };
  set(SIGINT, DISP); set(SIGQUIT, DISPQ); if (DISP == 3) set(SIGCHLD, 2);
  sigset_t m; sigemptyset(&m); if (MASK & 1) sigaddset(&m, SIGCHLD); if (MASK & 2) { sigaddset(&m, SIGINT); sigaddset(&m, SIGUSR2); } A.sigprocmask(SIG_SETMASK, &m, nullptr);
}
static void *sys_body(Spec *) { do_system(SYSREAL); return nullptr; }
static int sys_main(int, char **, char **) {
  app_state();
  if (SYSWHO) { int t = app_create(K_CUSTOM, 0, sys_body); if (t >= 0) app_join(t, nullptr); }
  else for (int i = 0; i < NSYS; i++) do_system(SYSREAL == 2 ? pick(2) : SYSREAL);
  end_op(K_EXIT, 4);
  return 0;
}
static bool EXITFN_RAN; static void exitfn() { EXITFN_RAN = true; if (W.proc) ev(E_USER, 5); }
static void sys_finish() {
  // the child: no callbacks, no exit handlers; ends in exec or with 127
  int f = -1; for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_SYS_FORK && LOG[i].a == 0) f = i;
  if (f >= 0) {
    for (int i = f; i < NLOG; i++) { CHECK(SP, !(LOG[i].type < CB_COUNT), "the child of system gave the callback %s", evname(LOG[i].type)); CHECK(SP, LOG[i].type != E_USER, "the child of system ran the application's exit handlers"); }
    int x = -1; for (int i = f; i < NLOG; i++) if (LOG[i].type == E_SYS_EXEC) { CHECK(SP, x < 0, "the child of system called exec twice"); x = i; }
    CHECK(SP, x >= 0, "the child of system did not call exec");
    CHECK(SP, W.ended && (LOG[x].b ? W.end_kind == END_EXEC : W.end_kind == END_EXIT && W.end_status == 127), "the child of system ended with %d/%ld", W.end_kind, W.end_status);
  } else check_all();
}
static void sys_common() {
  app_setup(); ORG_SET = false; CHECK_REAL = false; NSYS = 1; SYSWHO = 0; DISP = DISPQ = MASK = 0; WN = WKIND = 0; WSTAT = 0; CHILDPID = 1001; CMD = "ls -l";
  S.on_waitpid = sys_wait; S.on_exec = sys_exec_hook; AP.no_thread_checks = false;
  H.in[CB_pre_fork] = [](long, long) { if (ORG_SET) check_restored("in monitor_pre_fork"); };
  H.in[CB_post_fork] = [](long, long) { check_restored("in monitor_post_fork"); };
  S.on_prefork = [] { if (ORG_SET) check_during("fork"); };
  O.env[O.nenv++] = "LD_PRELOAD=/x/libmonitor.so"; O.env[O.nenv++] = "ALAST=1"; O.env[O.nenv] = nullptr;
  O.nfiles = 0; if (pick(2) == 0) O.files[O.nfiles++] = {"/bin/sh", 1};
  sim_atexit(exitfn);
}
static void s_system() {
  sys_common(); SYSREAL = PARAM; SYSWHO = pick(2); DISP = pick(4); DISPQ = pick(3); MASK = pick(4);
  O.fork_mode = 1; O.exec_result = 2; WN = pick(3); WKIND = pick(2); static const int st[] = {0, 0x100, 0x7f00, 0xff00, 9, 0x82}; if (!WKIND) WSTAT = st[pick(NEL(st))];
}
static void s_system_seq() { sys_common(); NSYS = 3; SYSREAL = 2; DISP = pick(3); MASK = pick(4); O.follow = 0; O.fork_mode = 1; S.on_waitpid = [](pid_t pid, int *st, int opt) { CHILDPID = pid; return sys_wait(pid, st, opt); }; WSTAT = 0x300; }
static void s_system_null() { sys_common(); SYSREAL = 2; CMD = nullptr; NSYS = 2; DISP = pick(3); MASK = pick(4); }
SCENARIO(system, s_system, sys_main, sys_finish, "system (param 1: monitor_real_system) with every result of fork, wait and exec, every disposition and mask, from main and a side thread")
SCENARIO(system_seq, s_system_seq, sys_main, sys_finish, "sequences of three calls of system and monitor_real_system")
SCENARIO(system_null, s_system_null, sys_main, sys_finish, "system(NULL) with and without a shell")
// several threads in system at once
static const char *RCMD[MAXTHR]; static int SRN, RCANCEL, RFORK, RBAD; static struct sigaction RINT, RQUIT;
static pid_t race_wait(pid_t pid, int *st, int opt) {
  int f = -1; for (int i = 0; i < NLOG; i++) if (LOG[i].thr == W.cur && LOG[i].type == E_SYS_FORK) f = i;
  ev(E_SYS_WAIT, pid, opt);
  CHECK("C10", f >= 0 && pid == LOG[f].a, "concurrent system: T%d waits for process %d, its child is %ld", W.cur, pid, f >= 0 ? LOG[f].a : -1);
  CHECK("C10", cur()->mask & sbit(SIGCHLD), "concurrent system: SIGCHLD is not blocked while the command of T%d runs", W.cur);
  sim_usleep(1000 * (1 + (pid & 3)));
  if (!(W.act[SIGINT].sa_handler == SIG_IGN && W.act[SIGQUIT].sa_handler == SIG_IGN)) RBAD = 1;
  *st = (pid & 0x7f) << 8; return pid;
}
static void race_exec(int, const char *path, char *const argv[], char *const *, int) {
  CHECK("C10", !strcmp(path, "/bin/sh") && argv[2] && !strcmp(argv[2], RCMD[W.cur]), "concurrent system: the child of T%d runs \"%s\" instead of \"%s\"", W.cur, argv[2] ? argv[2] : "", RCMD[W.cur]);
  if (!same_act(W.act[SIGINT], RINT) || !same_act(W.act[SIGQUIT], RQUIT)) RBAD = 2;
}
static void race_system() {
  Thr *t = cur(); int at = NLOG; u64 m = t->mask; t->exp_kind = 0;
  static const char *names[] = {"a", "b", "c", "d", "e", "f"}; RCMD[t->id] = names[t->id % 6];
  int r = A.system(RCMD[t->id]);
  int npre = 0, npost = 0, fk = -1, pree = -1, post = -1; for (int i = at; i < NLOG; i++) { Event *e = &LOG[i]; if (e->thr != t->id) continue; if (e->type == CB_pre_fork) npre++; if (e->type == CB_post_fork) { npost++; post = i; } if (e->type == E_SYS_FORK) fk = i; if (e->type == E_CBEND && e->a == CB_pre_fork) pree = i; }
  CHECK("C10", fk >= 0 && npre == 1 && npost == 1 && pree < fk && fk < post, "concurrent system: T%d got %d pre-fork and %d post-fork callbacks", t->id, npre, npost);
  CHECK("C10", LOG[post].a == LOG[fk].a && LOG[post].b == LOG[pree].b, "concurrent system: monitor_post_fork of T%d got (%ld, %#lx), it should get (%ld, %#lx)", t->id, LOG[post].a, LOG[post].b, LOG[fk].a, LOG[pree].b);
  CHECK("C10", LOG[fk].a < 0 ? r == -1 : r == (LOG[fk].a & 0x7f) << 8, "concurrent system: T%d's call returned %#x for its child %ld", t->id, r, LOG[fk].a);
  CHECK("C10", t->mask == m, "concurrent system: T%d's signal mask is %#lx, before system it was %#lx", t->id, (long)t->mask, (long)m);
}
static void *race_body(Spec *s) { sigset_t m; sigemptyset(&m); sigaddset(&m, s->x ? SIGCHLD : SIGUSR2); A.pthread_sigmask(SIG_BLOCK, &m, nullptr); race_system(); return nullptr; }   // masks differ
static int race_main(int, char **, char **) {
  app_state(); RINT = W.act[SIGINT]; RQUIT = W.act[SIGQUIT];
  int tid[3]; for (int i = 0; i < SRN; i++) tid[i] = app_create(K_CUSTOM, 0, race_body, nullptr, i);
  if (RCANCEL) { if (tid[0] >= 0) sim_pthread_cancel(W.thr[tid[0]].ptid); } else if (RFORK) { AP.pending[W.cur] = 0; pid_t p = RFORK == 1 ? A.fork() : A.real_fork(); if (p == 0) { O.follow = 1; race_system(); end_op(K_UEXIT, 4); } }
  else race_system();
  for (int i = 0; i < SRN; i++) if (tid[i] >= 0) app_join(tid[i], nullptr);
  if (!same_act(W.act[SIGINT], RINT) || !same_act(W.act[SIGQUIT], RQUIT)) RBAD = 3;
  end_op(K_EXIT, 4);
  return 0;
}
static void race_finish() {
  if (!count_ev(E_SYS_FORK, 1)) check_all();
  static const char *w[] = {"", "while a command runs", "in a child before the shell starts", "after all calls"};
  if (RCANCEL) CHECK("C10", !RBAD, "canceled in system: the action of SIGINT or SIGQUIT is wrong %s", w[RBAD]);
  CHECK("C10", !RBAD, "concurrent system: the action of SIGINT or SIGQUIT is wrong %s", w[RBAD]);
}
static void race_common() { app_setup(); RBAD = RCANCEL = RFORK = 0; MASK = 0; DISP = pick(3); DISPQ = 0; SRN = 1; O.fork_mode = 1; O.files[O.nfiles++] = {"/bin/sh", 1}; S.on_waitpid = race_wait; S.on_exec = race_exec; }
static void s_race() { race_common(); SRN = 1 + pick(2); }
static void s_race_c() { race_common(); RCANCEL = 1; }
SCENARIO(system_race, s_race, race_main, race_finish, "system in two or three threads at once")
static void s_race_f() { race_common(); RFORK = 1 + pick(2); SRN = 1; }
SCENARIO(system_fork, s_race_f, race_main, race_finish, "the process is forked while a thread is in system; the child uses system too")
SCENARIO(system_cancel, s_race_c, race_main, race_finish, "a thread is canceled in system")
static int NREAL; static const char *NREALC; static int NRES;
static int sys_no_main(int, char **, char **) {
  for (int i = 0; i < 2; i++) {
    int at = NLOG; NREAL = 0; NRES = i ? 0x500 : -1; static const char *cmds[] = {"ls", nullptr}; CMD = cmds[pick(2)];
    int r = A.system(CMD);
    CHECK("C10", NREAL == 1 && NREALC == CMD && r == NRES, "with MONITOR_NO_SYSTEM_OVERRIDE, system calls the system's %d times and returns %d", NREAL, r);
    for (int k = at; k < NLOG; k++) CHECK("C10", !(LOG[k].type < CB_COUNT), "with MONITOR_NO_SYSTEM_OVERRIDE, system gave a callback");
    for (int k = at; k < NLOG; k++) CHECK("C10", LOG[k].type != E_SYS_FORK, "with MONITOR_NO_SYSTEM_OVERRIDE, monitor itself forked");
  }
  end_op(K_EXIT, 4); return 0;
}
static void s_system_no() { sys_common(); static const char *v[] = {"MONITOR_NO_SYSTEM_OVERRIDE=1", "MONITOR_NO_SYSTEM_OVERRIDE=", "MONITOR_NO_SYSTEM_OVERRIDE=0"}; O.env[O.nenv++] = v[pick(3)]; O.env[O.nenv] = nullptr; S.on_system = [](const char *c) { NREAL++; NREALC = c; return NRES; }; }
SCENARIO(system_no, s_system_no, sys_no_main, check_all, "system with MONITOR_NO_SYSTEM_OVERRIDE")

// ---------------------------------------------------------------- real functions
static char *BIGENV[700]; static char ENVBUF[700][24]; static char *const *RX_ARGV; static int NRX;
static void build_env(int n, int pos, int alike) {
  static const char *al[] = {nullptr, "XLD_PRELOAD=a", "LD_PRELOADX=a", "LD_PRELOAD_64=x", "FOO=LD_PRELOAD", "FOO=LD_PRELOAD=x", "LD_PRELOADED="};
  int k = 0;
  for (int i = 0; i < n; i++) { snprintf(ENVBUF[i], 24, "V%d=%d", i, i * 7); BIGENV[k++] = ENVBUF[i]; }
  auto ins = [&](int at, const char *s) { if (at > k) at = k; memmove(BIGENV + at + 1, BIGENV + at, sizeof(char *) * (k - at)); BIGENV[at] = (char *)s; k++; };
  if (al[alike]) ins(k / 2, al[alike]);
  switch (pos) { case 1: ins(0, "LD_PRELOAD=a.so"); break; case 2: ins(k / 2, "LD_PRELOAD=a.so:b.so"); break; case 3: ins(k, "LD_PRELOAD="); break; case 4: ins(0, "LD_PRELOAD=a"); ins(1, "LD_PRELOAD=b"); break; }
  BIGENV[k] = nullptr;
}
static void rx_hook(int, const char *path, char *const argv[], char *const envp[], int) {
  NRX++;
  CHECK("C22", XPATH && !strcmp(path, XPATH), "monitor_real_execve passes path %s", path);
  CHECK("C22", argv && argv[0] && !strcmp(argv[0], "a0") && argv[1] && !strcmp(argv[1], "a b") && !argv[2], "monitor_real_execve changes the arguments");
  for (int i = 0; i < NWANT; i++) CHECK("C22", envp[i] && !strcmp(envp[i], REALENV_WANT[i]), "monitor_real_execve: environment entry %d is \"%.30s\", it should be \"%.30s\"", i, envp[i] ? envp[i] : "(end)", REALENV_WANT[i]);
  CHECK("C22", !envp[NWANT], "monitor_real_execve: environment has the additional entry \"%.30s\"", envp[NWANT]);
}
static void real_env_op(const char *path) {
  NWANT = 0; for (char **e = BIGENV; *e; e++) if (strncmp(*e, "LD_PRELOAD=", 11)) REALENV_WANT[NWANT++] = *e;
  static char *av[] = {(char *)"a0", (char *)"a b", nullptr}; XPATH = path; NRX = 0; int at = NLOG; cur()->err = 0;
  cur()->exp_how = 0; ev(E_APP_OP, OP_EXEC, 9);
  int r = A.real_execve(path, av, BIGENV);
  CHECK("C22", NRX == 1, "monitor_real_execve called the system's %d times", NRX);
  CHECK("C22", r == -1 && cur()->err == sys_exec_result(path, false), "monitor_real_execve returned %d errno %d", r, cur()->err);
  for (int i = at; i < NLOG; i++) CHECK("C22", !(LOG[i].type < CB_COUNT), "monitor_real_execve gave a callback");
}
static int RN, RPOS, RAL;
static int real_env_main(int, char **, char **) { real_env_op("/none"); build_env(3, 1, 0); real_env_op("/bin/data"); real_env_op("/bin/prog"); return 0; }
static void real_env_finish() { int n = 0; for (int i = 0; i < NLOG; i++) n += LOG[i].type == CB_begin_process_exit || LOG[i].type == CB_fini_process || LOG[i].type == CB_fini_library; CHECK("C22", n == 0 && W.end_kind == END_EXEC, "monitor_real_execve gave exit callbacks or did not run the program"); }
static void s_real_env() {
  app_setup(); S.on_exec = rx_hook;
  static const int n[] = {0, 1, 2, 245, 246, 247, 248, 249, 250, 251, 252, 300, 509, 510, 511, 512, 513, 514, 640};
  build_env(n[pick(NEL(n))], pick(5), pick(7));
}
SCENARIO(real_env, s_real_env, real_env_main, real_env_finish, "monitor_real_execve with environments of every size around the limits, LD_PRELOAD anywhere, look-alikes")
static int real_sys_env_main(int, char **, char **) { CHECK_REAL = true; save_org(); want_env(!SYSREAL); CHILDPID = 1001; SYSREAL ? A.system(CMD) : A.real_system(CMD); return 0; }
static void real_sys_env_finish() { if (W.end_kind == END_EXEC) CHECK("C22", SYSCALLS == 1, "no exec in the child of monitor_real_system"); }
static void s_real_sys_env() {
  sys_common(); static const int n[] = {0, 1, 246, 247, 248, 249, 250, 251, 512, 640};
  SYSREAL = pick(2); CHECK_REAL = true; if (PARAM) { CHECK_REAL = false; }
  build_env(n[pick(NEL(n))], pick(5), pick(7)); O.envp = BIGENV; O.follow = 2; SYSCALLS = 0; O.nfiles = 0; O.files[O.nfiles++] = {"/bin/sh", 1};
}
SCENARIO(real_sys_env, s_real_sys_env, real_sys_env_main, real_sys_env_finish, "environment of the command run by monitor_real_system and system")

// each real function as the first call ever, before main, in main, in a thread, in the exit callbacks
enum { R_EXIT, R_FORK, R_EXECVE, R_SYSTEM, R_DLOPEN, R_DLCLOSE, R_SPM, R_PSM, R_ABORT, R_N };
static int ROP, RWHEN, RDISP, RMASK, RHOW, RSET; static const char *DLP; static int DLF; static void *DLH; static int NDL;
static u64 sets[] = {0, ~0ull, sbit(SIGUSR1), sbit(SIGUSR1) | sbit(42) | sbit(SIGPROF), sbit(42), sbit(SIGKILL) | sbit(SIGTERM)};
static bool RDONE;
static void run_real() {
  if (RDONE || W.proc) return;
  RDONE = true;
  Thr *t = cur(); int at = NLOG; auto cbs = [&](int upto) { for (int i = at; i < upto; i++) if (LOG[i].thr == t->id) CHECK("C22", !(LOG[i].type < CB_COUNT), "a monitor_real function gave the callback %s", evname(LOG[i].type)); };
  ev(E_APP_OP, OP_MISC, 300 + ROP);
  switch (ROP) {
  case R_EXIT: t->exp_how = 1; t->exp_status = 41; sv_set(40, NLOG); A.real_exit(41); fail("C22", "monitor_real_exit returned"); break;
  case R_ABORT: sv_set(40, NLOG); A.real_abort(); fail("C22", "monitor_real_abort returned"); break;
  case R_FORK: { pid_t r = A.real_fork(); int f = -1, n = 0; for (int i = at; i < NLOG; i++) if (LOG[i].type == E_SYS_FORK) { f = i; n++; } CHECK("C22", n == 1 && r == LOG[f].a, "monitor_real_fork returned %d", r); break; }
  case R_EXECVE: { build_env(4, 2, 4); real_env_op("/none"); break; }
  case R_SYSTEM: { CHECK_REAL = true; CHILDPID = 0; WSTAT = 0x700; do_system(true); break; }
  case R_DLOPEN: { static int hobj; DLH = RSET ? &hobj : nullptr; NDL = 0; const char *p = RHOW ? "libx.so" : nullptr; void *h = A.real_dlopen(p, 0x101); CHECK("C22", h == DLH && NDL == 1 && DLP == p && DLF == 0x101, "monitor_real_dlopen does not pass the call through"); break; }
  case R_DLCLOSE: { NDL = 0; int r = A.real_dlclose((void *)0x1234); CHECK("C22", r == (RSET ? -1 : 0) && NDL == 1 && DLH == (void *)0x1234, "monitor_real_dlclose does not pass the call through"); break; }
  case R_SPM: case R_PSM: {
    sigset_t s, o; bits2set(sets[RSET], &s); bits2set(0x5555, &o); u64 old = t->mask, in = sets[RSET] & ~(sbit(SIGKILL) | sbit(SIGSTOP) | sbit(32) | sbit(33)); int how[] = {SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK, 77}; int h = how[RHOW];
    u64 want = h == SIG_BLOCK ? old | in : h == SIG_UNBLOCK ? old & ~in : h == SIG_SETMASK ? in : old; bool nul = RDISP == 1; if (nul) want = old;
    int r = ROP == R_SPM ? A.real_sigprocmask(h, nul ? nullptr : &s, RDISP == 2 ? nullptr : &o) : A.real_pthread_sigmask(h, nul ? nullptr : &s, RDISP == 2 ? nullptr : &o);
    bool bad = h == 77 && !nul;
    CHECK("C22", t->mask == want, "monitor_real_%s: the mask is %#lx, the system's function would give %#lx", ROP == R_SPM ? "sigprocmask" : "pthread_sigmask", (long)t->mask, (long)want);
    CHECK("C22", r == (bad ? (ROP == R_SPM ? -1 : EINVAL) : 0), "monitor_real_%s returned %d", ROP == R_SPM ? "sigprocmask" : "pthread_sigmask", r);
    if (!bad && RDISP != 2) CHECK("C22", set2bits(&o) == old, "monitor_real_%s: wrong old mask", ROP == R_SPM ? "sigprocmask" : "pthread_sigmask");
    t->mask = old; break; }
  }
  cbs(NLOG);
}
static void *run_real_thr(Spec *) { run_real(); return nullptr; }
static int real_main(int, char **, char **) {
  if (RWHEN == 2 || RWHEN == 3 || ROP == R_ABORT) { DISP = 0; if (ROP == R_ABORT && RWHEN >= 2) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = RDISP == 1 ? SIG_IGN : RDISP == 2 ? hnd : SIG_DFL; A.sigaction(SIGABRT, &sa, nullptr); if (RDISP == 3) A.m_sigaction(SIGABRT, [](int, siginfo_t *, void *) { return 0; }, 0, nullptr); if (RMASK) { sigset_t s; sigfillset(&s); A.pthread_sigmask(SIG_BLOCK, &s, nullptr); } } }
  if (RWHEN == 2) run_real();
  if (RWHEN == 3) { int k = app_create(K_CUSTOM, 0, run_real_thr); if (k >= 0) app_join(k, nullptr); }
  end_op(K_EXIT, 4); return 0;
}
static void real_finish() {
  if (ROP == R_EXIT || ROP == R_ABORT) {
    CHECK("C22", ROP == R_EXIT ? W.end_kind == END_EXIT && W.end_status == 41 : W.end_kind == END_SIGNAL && W.end_status == SIGABRT, "monitor_real_%s ended the process with %d/%ld", ROP == R_EXIT ? "exit" : "abort", W.end_kind, W.end_status);
    for (int i = W.sv[40]; i < NLOG; i++) CHECK("C22", !(LOG[i].type < CB_COUNT), "monitor_real_%s gave the callback %s", ROP == R_EXIT ? "exit" : "abort", evname(LOG[i].type));
  }
}
static void s_real() {
  sys_common(); O.nfiles = 0; O.files[O.nfiles++] = {"/bin/sh", 1}; O.files[O.nfiles++] = {"/bin/prog", 1};
  H.in[CB_pre_fork] = H.in[CB_post_fork] = nullptr; RDONE = false;
  S.on_exec = [](int w, const char *p, char *const a[], char *const e[], int er) { if (ROP == R_EXECVE) rx_hook(w, p, a, e, er); else sys_exec_hook(w, p, a, e, er); };
  S.on_waitpid = [](pid_t pid, int *st, int opt) { CHILDPID = pid; return sys_wait(pid, st, opt); };
  ROP = pick(R_N); RWHEN = pick(6); RDISP = RMASK = RHOW = RSET = 0;
  if (ROP == R_SPM || ROP == R_PSM) { RHOW = pick(4); RSET = pick(NEL(sets)); RDISP = pick(3); }
  if (ROP == R_ABORT && RWHEN >= 2 && RWHEN <= 3) { RDISP = pick(4); RMASK = pick(2); }
  if (ROP == R_DLOPEN || ROP == R_DLCLOSE) { RSET = pick(2); RHOW = pick(2); }
  S.on_dlopen = [](const char *p, int f) { NDL++; DLP = p; DLF = f; return DLH; };
  S.on_dlclose = [](void *h) { NDL++; DLH = h; return RSET ? -1 : 0; };
  if (RWHEN == 0) { O.preload_ctor = false; H.in[CB_start_main_init] = [](long, long) { run_real(); }; }
  if (RWHEN == 1) S.app_init = run_real;
  if (RWHEN == 4) H.in[CB_fini_process] = [](long, long) { run_real(); };
  if (RWHEN == 5) H.in[CB_init_library] = [](long, long) { run_real(); };
  O.fork_mode = 1;
}
SCENARIO(real, s_real, real_main, real_finish, "every monitor_real function as first call, before main, in main, in a thread and in callbacks")
