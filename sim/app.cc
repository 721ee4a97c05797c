#include "app.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>

App AP;
static bool is_ignored(int thr);
EXPORT int sim_raise(int sig);
EXPORT int sim_atexit(void (*f)(void));
const char *kind_name[] = {"return", "pthread_exit", "compute", "sleep", "sigwait", "all-blocked", "shootdown-block", "end-blocked", "never-unblock", "canceled",
  "exit", "_exit", "_Exit", "exec", "raise", "fault", "create", "fork", "nestjoin", "custom", "read", "end-blocked", "unblock", "blocked-sigwait"};
bool kind_ends(int k) { return k == K_EXIT || k == K_UEXIT || k == K_UEXIT2 || k == K_EXEC || k == K_ABORTSIG || k == K_FAULT; }

static void cb_sleep(u64 us) { if (us) { u64 end = W.now + us; while (W.now < end) app_sleep(end - W.now); } }
static void in_begin(long, long) { sv_set(SV_EXITING, 1); cb_sleep(AP.slow_begin); if (AP.reenter == 1) { cur()->exp_status = 77; A.exit(77); } }
static void in_finip(long, long) { cb_sleep(AP.slow_fini_process); if (AP.reenter == 2) { cur()->exp_status = 77; A.exit(77); } }
static void in_finit(long, long) { cb_sleep(AP.slow_fini_thread); }
static void in_finil(long, long) { cb_sleep(AP.slow_fini_library); }
static void in_initt(long, long) { cb_sleep(AP.slow_init_thread); }
static void app_on_create(Thr *t, const pthread_attr_t *, start_fn *, void *) { if (t) t->spec = AP.pending[W.cur]; }
static void app_sigdeliver(int sig, siginfo_t *) { (void)sig; }

void app_setup() {
  memset(&AP, 0, sizeof AP);
  AP.signo = SIGTERM;
  H.in[CB_begin_process_exit] = in_begin; H.in[CB_fini_process] = in_finip; H.in[CB_fini_thread] = in_finit; H.in[CB_fini_library] = in_finil; H.in[CB_init_thread] = in_initt;
  S.on_create = app_on_create; S.on_sig_deliver = app_sigdeliver;
  O.files[O.nfiles++] = {"/bin/prog", 1};
  O.files[O.nfiles++] = {"/bin/sh", 1};
  O.files[O.nfiles++] = {"/bin/data", 0};
}

// ---------------------------------------------------------------- log helpers
int find_ev(int from, int type, int thr, int proc) {
  for (int i = from; i < NLOG; i++) if (LOG[i].type == type && (thr < 0 || LOG[i].thr == thr) && (proc < 0 || LOG[i].proc == proc)) return i;
  return -1;
}
static int find_end(int from, int cb, int thr, int proc) {
  for (int i = from; i < NLOG; i++) if (LOG[i].type == E_CBEND && LOG[i].a == cb && (thr < 0 || LOG[i].thr == thr) && (proc < 0 || LOG[i].proc == proc)) return i;
  return -1;
}
int count_ev(int type, int proc) { int n = 0; for (int i = 0; i < NLOG; i++) if (LOG[i].type == type && (proc < 0 || LOG[i].proc == proc)) n++; return n; }

// ---------------------------------------------------------------- application side
static void *thread_body(void *arg, int which) {
  Thr *t = cur();
  Spec *s = (Spec *)arg;
  ev(E_APP_START, t->id);
  CHECK("C05", s == &AP.spec[t->spec], "thread T%d: the start routine got argument %p, the application passed %p", t->id, arg, (void *)&AP.spec[t->spec]);
  CHECK("C05", (t->spec & 1) == which, "thread T%d runs the start routine of another pthread_create", t->id);
  if (AP.sync) sv_set(SV_STARTED, W.sv[SV_STARTED] + 1);
  app_point();
  if (AP.sync == 2 && W.proc == 0 && !kind_ends(s->kind)) app_wait_var(SV_EXITING, 1);
  run_kind(s);
  t = cur();
  t->app_ret = s->status;
  ev(E_APP_END, t->id, 1);
  return (void *)(long)s->status;
}
void *app_thread(void *arg) { return thread_body(arg, 0); }
static void *app_thread_b(void *arg) { return thread_body(arg, 1); }
start_fn *start_of(int spec) { return spec & 1 ? app_thread_b : app_thread; }
int app_create(int kind, int status, void *(*fn)(Spec *), const pthread_attr_t *attr, long x) {
  Thr *c = cur();
  int k = AP.nspec++;
  AP.spec[k] = {kind, status, fn, x, 0}; AP.pending[c->id] = k;
  int before = NLOG;
  ev(E_APP_OP, OP_CREATE, k);
  pthread_t th = 0; void *outer = c->app_arg; c->app_arg = (void *)start_of(k);
  int r = A.pthread_create(&th, attr, start_of(k), &AP.spec[k]);
  c->app_arg = outer;
  int tid = -1;
  int nest = 0;
  for (int i = before + 1; i < NLOG; i++) { if (LOG[i].thr == c->id && LOG[i].a == OP_CREATE) { if (LOG[i].type == E_APP_OP) nest++; else if (LOG[i].type == E_APP_RES) nest--; }
    if (!nest && LOG[i].type == E_SYS_CREATE && LOG[i].thr == c->id) { tid = LOG[i].a;
      CHECK("C05", r == LOG[i].b, "pthread_create returned %d, the system's returned %ld", r, LOG[i].b); } }
  CHECK("C05", r != 0 || tid >= 0, "pthread_create returned 0 but the system's was not called");
  if (r == 0) CHECK("C05", th == W.thr[tid].ptid, "pthread_create gave a thread id %#lx, the system's gave %#lx", (long)th, (long)W.thr[tid].ptid);
  ev(E_APP_RES, OP_CREATE, r, tid);
  c->exp_kind = r;
  return r == 0 ? tid : -1;
}
void end_op(int kind, int status) {
  Thr *t = cur();
  t->exp_status = status; t->exp_how = 1;
  ev(E_APP_OP, OP_EXIT, kind);
  switch (kind) {
  case K_EXIT: A.exit(status); break;
  case K_UEXIT: A._exit(status); break;
  case K_UEXIT2: A._Exit(status); break;
  case K_EXEC: { t->exp_how = 3; t->exp_status = 0; char *argv[] = {(char *)"prog", nullptr}; A.execv("/bin/prog", argv); break; }
  case K_ABORTSIG: t->exp_how = 2; t->exp_status = AP.signo; sim_raise(AP.signo); break;
  case K_FAULT: t->exp_how = 2; t->exp_status = SIGSEGV; app_fault(SIGSEGV); break;
  case K_PEXIT: t->exp_status = 0; ev(E_APP_END, t->id, 2); t->app_ret = status; A.pthread_exit((void *)(long)status); break;
  default: return;
  }
  fail("C01", "T%d: %s returned to the application", t->id, kind_name[kind]);
}
void app_barrier(int n) { if (AP.sync) block_until(B_BARRIER, SV_STARTED, n, false, false); }
static void shoot(bool on) {
  ev(E_APP_OP, OP_MISC, on ? 1 : 0);
  int r = 0; if (on) r = A.block_shootdown(); else A.unblock_shootdown();
  if (on) ev(E_APP_OP, OP_MISC, 2, 1 + r);
}
void run_kind(Spec *s) {
  switch (s->kind) {
  case K_RETURN: return;
  case K_COMPUTE: app_compute(); break;
  case K_CANCELED: app_compute(true); break;
  case K_SLEEPER: for (;;) app_sleep(3600ull * 1000000);
  case K_SIGWAIT: { sigset_t set; sigfillset(&set); int sig = 0; for (;;) { A.sigwait(&set, &sig); ev(E_APP_RES, OP_MISC, sig); } }
  case K_BLOCKED: { sigset_t set; sigfillset(&set); A.pthread_sigmask(SIG_SETMASK, &set, nullptr); app_compute(); break; }
  case K_SHOOTBLOCK: shoot(true); app_sleep(5 * 1000000); shoot(false); app_compute(); break;
  case K_SHOOTEND: shoot(true); app_point(); shoot(false); return;
  case K_SHOOTNEVER: shoot(true); app_compute(); break;
  case K_BLOCKWAIT: { shoot(true); sigset_t set; sigfillset(&set); int sig = 0; for (;;) { A.sigwait(&set, &sig); ev(E_APP_RES, OP_MISC, sig); } }
  case K_READ: app_read(); CHECK("C03", W.proc || sv_get(SV_EXITING) == 0, "T%d: the notification of process exit interrupted a restartable system call", cur()->id); app_compute(); break;
  case K_ENDBLOCKED: shoot(true); app_wait_var(SV_EXITING, 1); return;
  case K_UNBLOCK: { shoot(true); app_wait_var(SV_EXITING, 1); u64 end = W.now + (u64)s->x * 1000000; while (W.now < end) app_sleep(end - W.now); shoot(false); app_compute(); break; }
  case K_CREATE: { int k = app_create(s->x ? s->x : K_RETURN, s->status + 100); if (s->y && k >= 0) app_join(k, nullptr); return; }
  case K_CUSTOM: s->status = (long)s->fn(s); return;
  default: end_op(s->kind, s->status);
  }
}
static int init_of(int thr) { return find_ev(0, CB_init_thread, thr); }
#define PT(x) (W.proc > 0 ? "C08" : x)
void probe(const char *where) {
  Thr *t = cur(); int mainthr = 0, forked = -1;
  for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_SYS_FORK && LOG[i].a == 0) { mainthr = LOG[i].thr; forked = i; }
  int num = A.get_thread_num(); void *ud = A.get_user_data(); void *sb = A.stack_bottom(); void *st = A.get_addr_thread_start();
  bool dtor = !strcmp(where, "key destructor");
  if (t->id == mainthr) {
    int e = -1; for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_CBEND && LOG[i].a == CB_init_process && LOG[i].proc == W.proc) e = i;
    CHECK(PT("C04"), num == 0, "%s: monitor_get_thread_num gives %d in the main thread", where, num);
    if (e >= 0) CHECK(PT("C04"), (long)ud == LOG[e].b, "%s: monitor_get_user_data gives %p in the main thread, monitor_init_process returned %#lx", where, ud, LOG[e].b);
    CHECK(PT("C04"), sb == nullptr || on_stack_of(t, sb), "%s: monitor_stack_bottom gives %p, not on the main thread's stack", where, sb);
    if (forked < 0 && find_ev(0, CB_at_main) >= 0) CHECK(PT("C04"), sb != nullptr, "%s: monitor_stack_bottom gives NULL in the main thread", where);
    return;
  }
  int i = init_of(t->id);
  if (is_ignored(t->id) || i < 0) {
    CHECK(PT("C06"), num == -1 && !ud && !st && !sb, "%s: T%d is not monitored but has thread number %d, user data %p, start routine %p, stack bottom %p", where, t->id, num, ud, st, sb);
    return;
  }
  int e = find_end(i, CB_init_thread, t->id, -1);
  if (dtor && num == -1) { CHECK(PT("C04"), !ud && !st && !sb, "%s: T%d has no thread number but user data %p start %p bottom %p", where, t->id, ud, st, sb); return; }
  CHECK(PT("C04"), num == LOG[i].a, "%s: monitor_get_thread_num gives %d in T%d, its number is %ld", where, num, t->id, LOG[i].a);
  CHECK(PT("C04"), (long)ud == LOG[e].b, "%s: monitor_get_user_data gives %p in T%d, monitor_init_thread returned %#lx", where, ud, t->id, LOG[e].b);
  CHECK(PT("C04"), on_stack_of(t, sb), "%s: monitor_stack_bottom gives %p in T%d, not on its stack", where, sb, t->id);
  CHECK(PT("C04"), st == (void *)start_of(t->spec), "%s: monitor_get_addr_thread_start gives %p in T%d, its start routine is %p", where, st, t->id, (void *)start_of(t->spec));
}

// ---------------------------------------------------------------- oracles
// the return of the pre-create callback of the creation whose system call is event i; -1: none
static int pre_end_of(int i) {
  int nest = 0;
  for (int j = i - 1; j >= 0; j--) if (LOG[j].thr == LOG[i].thr) {
    if (LOG[j].type == E_APP_RES && LOG[j].a == OP_CREATE) { nest++; continue; }
    if (LOG[j].type == E_APP_OP && LOG[j].a == OP_CREATE) { if (nest-- == 0) return -1; continue; }
    if (!nest && LOG[j].type == E_CBEND && LOG[j].a == CB_thread_pre_create && LOG[j].depth == LOG[i].depth) return j;
  }
  return -1;
}
static bool is_ignored(int thr) {
  // ignored: the creation got no pre-create callback or it returned MONITOR_IGNORE_NEW_THREAD
  for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_SYS_CREATE && LOG[i].a == thr) { int j = pre_end_of(i); return j < 0 || LOG[j].b == -1; }
  return false;
}
static int nprocs() { int n = 0; for (int i = 0; i < NLOG; i++) if (LOG[i].proc > n) n = LOG[i].proc; return n + 1; }
static int main_of(int p) {
  if (p == 0) return 0;
  int k = 0;
  for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_SYS_FORK && LOG[i].a == 0) { if (++k == p) return LOG[i].thr; }
  return 0;
}
struct ProcLog { int first, last; int nb, nf; int b, be, f, fe; int end; int ninit, initret; bool used_threads; int winner; bool timeout; int mainthr; unsigned unresponsive; u64 last_progress, now; };
static bool blocked_at(int thr, int at); static bool sig_hit(int thr, int upto);
// the block was still set at time t or at event at
static bool blocked_till(int thr, int at, u64 t) { if (blocked_at(thr, at)) return true; int k = 0; while (k < at && LOG[k].t < t) k++; return blocked_at(thr, k); }
static ProcLog scan(int p) {
  ProcLog q; memset(&q, 0, sizeof q); q.first = q.b = q.be = q.f = q.fe = q.end = q.initret = -1; q.winner = -1; q.last = -1;
  for (int i = 0; i < NLOG; i++) { if (LOG[i].proc != p) continue; if (q.first < 0) q.first = i; q.last = i; Event *e = &LOG[i];
    switch (e->type) {
    case CB_begin_process_exit: q.nb++; if (q.b < 0) { q.b = i; q.winner = e->thr; } break;
    case CB_fini_process: q.nf++; if (q.f < 0) q.f = i; break;
    case E_CBEND: if (e->a == CB_begin_process_exit && q.be < 0) q.be = i; if (e->a == CB_fini_process && q.fe < 0) q.fe = i; if (e->a == CB_init_process) q.initret = i; break;
    case CB_init_process: q.ninit++; break;
    case E_PROC_END: q.end = i; break;
    case E_SYS_CREATE: if (e->b == 0) q.used_threads = true; break;
    }
  }
  q.mainthr = main_of(p);
  // given up on: running application code when the exit began, no fini-thread callback begun and not ended when fini-process began
  if (q.f >= 0 && q.be >= 0 && q.used_threads) {
    u64 last = LOG[q.be].t; q.now = LOG[q.f].t;
    for (int i = 0; i < q.f; i++) if (LOG[i].proc == p && LOG[i].type == CB_fini_thread) {
      if (LOG[i].thr != q.winner) { if (LOG[i].t > last) last = LOG[i].t; } else if (i > q.be) q.now = LOG[i].t;   // the winner's own callback comes after the wait
    }
    q.last_progress = last;
    for (int t = 0; t < W.nthr; t++) {
      if (t == q.winner || W.thr[t].env || is_ignored(t)) continue;
      int st = t == q.mainthr ? 0 : find_ev(0, E_APP_START, t, p), fi = find_ev(0, CB_fini_thread, t, p), te = find_ev(0, E_THR_END, t, p), ae = find_ev(0, E_APP_END, t, p);
      if (st < 0 || st > q.be || (fi >= 0 && fi < q.f) || (te >= 0 && te < q.f)) continue;
      if (ae >= 0 && ae < q.f) continue;   // ending by itself
      if (sig_hit(t, q.f)) continue;       // struck by a fatal signal while answering
      q.unresponsive |= 1u << t;
      if (blocked_till(t, q.f, last + 10 * 1000000 - 200000) && q.now >= last + 10 * 1000000) q.timeout = true;
    }
  }
  return q;
}
// the thread that runs the exit callbacks starts the exit once more: it goes on at once
static int nested_exit(const ProcLog &q) {
  if (q.b >= 0 && (AP.reenter == 1 || AP.reenter == 2)) return q.b;
  int nst[MAXTHR] = {0};
  if (AP.async_sig) for (int i = q.first; i >= 0 && i <= q.last && (q.fe < 0 || i < q.fe); i++) {
    int t = LOG[i].thr;
    bool start = (LOG[i].type == E_APP_OP && LOG[i].a == OP_EXIT && LOG[i].b != K_PEXIT) || (LOG[i].type == E_SIG_HANDLER && LOG[i].a == AP.signo);
    if (start && nst[t]++ && (q.b < 0 || t == q.winner)) return i;
  }
  return -1;
}
static bool sig_hit(int thr, int upto) { if (AP.async_sig) for (int i = 0; i < upto; i++) if (LOG[i].type == E_SIG_HANDLER && LOG[i].a == AP.signo && LOG[i].thr == thr) return true; return false; }
#define TG(x) (p > 0 ? "C08" : x)
// a child forked during its parent's exit that only goes on with that exit, or by an ignored thread and that never calls exit
static bool excused_child(int p) {
  if (p == 0) return false;
  int fk = -1;
  for (int i = 0; i < NLOG; i++) if (LOG[i].proc == p) { if (fk < 0) fk = i; if (LOG[i].type == E_APP_OP && LOG[i].a == OP_EXIT) return false; }
  if (fk < 0 || is_ignored(LOG[fk].thr)) return true;
  for (int i = 0; i < fk; i++) if ((LOG[i].type == E_CBEND && LOG[i].a == CB_fini_process) || (LOG[i].type == E_APP_OP && LOG[i].a == OP_EXIT && LOG[i].thr == LOG[fk].thr)) return true;
  return false;
}
static void check_exit(int p) {
  if (excused_child(p)) return;
  ProcLog q = scan(p); int nest = nested_exit(q);
  CHECK(TG("C01"), q.nb <= 1, "process %d: monitor_begin_process_exit ran %d times", p, q.nb);
  CHECK(TG("C01"), q.nf <= 1, "process %d: monitor_fini_process ran %d times", p, q.nf);
  if (q.nf) {
    CHECK(TG("C01"), q.nb == 1 && q.b < q.f && (q.be >= 0 && q.be < q.f), "process %d: monitor_fini_process began before monitor_begin_process_exit had returned", p);
    CHECK(TG("C01"), LOG[q.b].a == LOG[q.f].a, "process %d: monitor_begin_process_exit got reason %ld but monitor_fini_process got %ld", p, LOG[q.b].a, LOG[q.f].a);
    CHECK(TG("C01"), LOG[q.b].thr == LOG[q.f].thr, "process %d: monitor_fini_process ran in another thread than monitor_begin_process_exit", p);
    if (q.initret >= 0) CHECK(TG("C01"), LOG[q.f].b == LOG[q.initret].b, "process %d: monitor_fini_process got data %#lx, monitor_init_process returned %#lx", p, LOG[q.f].b, LOG[q.initret].b);
  }
  if (q.nb) {
    int want = sig_hit(q.winner, q.b) ? 2 : W.thr[q.winner].exp_how;
    if (want && AP.reenter != 1 && AP.reenter != 2) CHECK(TG("C01"), LOG[q.b].a == want, "process %d: the exit was started by T%d with reason %d but monitor_begin_process_exit got %ld", p, q.winner, want, LOG[q.b].a);
  }
  for (int i = q.first; i >= 0 && i <= q.last; i++) {
    Event *e = &LOG[i]; if (e->proc != p) continue;
    bool sysend = e->type == E_SYS_EXIT || e->type == E_PROC_END || (e->type == E_SYS_EXEC && e->b);
    if (sysend && !(q.fe >= 0 && q.fe < i)) {
      bool re = nest >= 0 && nest < i;
      CHECK(TG("C01"), re, "process %d: T%d went on to the system's %s before monitor_fini_process had returned (began %s)", p, e->thr, e->type == E_SYS_EXIT ? "exit" : e->type == E_SYS_EXEC ? "exec" : "process end", q.f >= 0 && q.f < i ? "yes" : "no");
    }
    if (e->type == E_SYS_EXIT && !AP.reenter) {   // exit runs the exit handlers, _exit and _Exit do not
      int k = -1; for (int j = i; j >= 0 && k < 0; j--) if (LOG[j].thr == e->thr && LOG[j].proc == p && LOG[j].type == E_APP_OP && LOG[j].a == OP_EXIT) k = (int)LOG[j].b;
      if (k == K_EXIT || k == K_UEXIT || k == K_UEXIT2) CHECK(TG("C01"), e->b == (k != K_EXIT), "process %d: T%d called %s, monitor called the system's %s", p, e->thr, k == K_EXIT ? "exit" : "_exit", e->b ? "_exit" : "exit");
    }
    if (e->type == E_SYS_EXIT) CHECK(TG("C01"), e->a == e->c, "process %d: T%d asked for exit status %ld but the system's exit got %ld", p, e->thr, e->c, e->a);
  }
  if (q.end >= 0) {
    Thr *t = &W.thr[LOG[q.end].thr]; long kind = LOG[q.end].a, st = LOG[q.end].b;
    if (kind == END_SIGNAL && sig_hit(t->id, q.end)) CHECK(TG("C12"), st == AP.signo, "process %d ended with signal %ld, signal %d was sent", p, st, AP.signo);
    else if (t->exp_how == 2 && AP.reenter != 1 && AP.reenter != 2) CHECK(TG("C12"), kind == END_SIGNAL && st == t->exp_status, "process %d ended with %s %ld, T%d was killed by signal %d", p, kind == END_SIGNAL ? "signal" : "exit status", st, t->id, t->exp_status);
    else if (t->exp_how == 1) CHECK(TG("C01"), kind == END_EXIT && st == (t->exp_status & 0xff), "process %d ended with kind %ld status %ld, T%d asked for exit status %d", p, kind, st, t->id, t->exp_status);
  }
}
static void check_library(int p) {
  if (!O.dynamic || excused_child(p)) return;
  ProcLog q = scan(p);
  int ni = count_ev(CB_init_library), nf = count_ev(CB_fini_library, p);
  CHECK(TG("C16"), ni == 1, "monitor_init_library ran %d times", ni);
  CHECK(TG("C16"), nf <= 1, "process %d: monitor_fini_library ran %d times", p, nf);
  int f = find_ev(0, CB_fini_library, -1, p);
  bool re = nested_exit(q) >= 0;
  if (f >= 0 && !re) CHECK(TG("C16"), q.fe >= 0 && q.fe < f, "process %d: monitor_fini_library ran before monitor_fini_process had returned", p);
  // a fatal signal may strike a thread that is already on its way into the callback
  bool twice = false; if (AP.async_sig) for (int t = 0; t < W.nthr; t++) { int n = 0; for (int i = 0; i < NLOG; i++) if (LOG[i].thr == t && LOG[i].proc == p && ((LOG[i].type == E_APP_OP && LOG[i].a == OP_EXIT) || (LOG[i].type == E_SIG_HANDLER && LOG[i].a == AP.signo))) n++; twice |= n > 1; }
  // the first thread may stall for the two seconds that the others are held back
  bool stalled = q.end >= 0 && LOG[q.end].thr != q.winner && q.fe >= 0 && LOG[q.end].t >= LOG[q.fe].t + 2000000;
  // a child that was forked while its parent was already running libc's exit inherits the rest of that exit only
  bool inherited = false; if (p > 0) { int k = 0, at = -1; for (int i = 0; i < NLOG && at < 0; i++) if (LOG[i].type == E_SYS_FORK && LOG[i].a == 0 && ++k == p) at = i;
    for (int i = 0; i < at; i++) if (LOG[i].type == E_SYS_EXIT || (LOG[i].type == E_CBEND && LOG[i].a == CB_fini_process)) inherited = true; }
  if (q.end >= 0 && !twice && !stalled && !inherited) CHECK(TG("C16"), nf == 1, "process %d ended without monitor_fini_library", p);
}
static bool blocked_at(int thr, int at) { bool b = false; for (int i = 0; i < at; i++) if (LOG[i].thr == thr && LOG[i].type == E_APP_OP && LOG[i].a == OP_MISC) b = LOG[i].b != 0; return b; }
// a thread whose client has blocked the notification gets no fini-thread callback until it unblocks it
static void check_block(int p, const ProcLog &q) {
  for (int i = 0; i < NLOG; i++) {
    Event *e = &LOG[i]; if (e->proc != p || e->type != E_APP_OP || e->a != OP_MISC || e->b != 2) continue;
    int t = e->thr, call = i; long r = e->c - 1; while (call > 0 && !(LOG[call].thr == t && LOG[call].type == E_APP_OP && LOG[call].a == OP_MISC && LOG[call].b == 1)) call--;
    CHECK(TG("C02"), r == 0 || r == 1, "process %d: monitor_block_shootdown returned %ld", p, r);
    if (r) CHECK(TG("C02"), q.b >= 0 && q.b < i, "process %d: monitor_block_shootdown returned %ld before process exit had begun", p, r);
    else for (int j = 0; j < call; j++) CHECK(TG("C02"), !(LOG[j].proc == p && (LOG[j].type == CB_fini_process || (LOG[j].type == CB_fini_thread && LOG[j].thr == t))) || !q.used_threads, "process %d: monitor_block_shootdown returned 0 in T%d after %s", p, t, evname(LOG[j].type));
    for (int j = r ? i : call; j < NLOG; j++) {
      if (LOG[j].thr != t || LOG[j].proc != p) continue;
      if (LOG[j].type == E_APP_OP && LOG[j].a == OP_MISC && LOG[j].b == 0) break;
      if (LOG[j].type == E_APP_OP && LOG[j].a == OP_EXIT) break;
      if (sig_hit(t, j)) break;   // it ends the process itself
      CHECK(TG("C02"), LOG[j].type != CB_fini_thread, "process %d: T%d got monitor_fini_thread although it had blocked it (monitor_block_shootdown returned %ld)", p, t, r);
    }
  }
}
static void check_threads(int p) {
  ProcLog q = scan(p);
  check_block(p, q);
  for (int t = 0; t < W.nthr; t++) {
    if (W.thr[t].env) continue;
    int ini = find_ev(0, CB_init_thread, t, p), inie = find_end(0, CB_init_thread, t, p), st = find_ev(0, E_APP_START, t, p);
    int fi = find_ev(0, CB_fini_thread, t, p), fie = find_end(0, CB_fini_thread, t, p), te = find_ev(0, E_THR_END, t, p), ae = find_ev(0, E_APP_END, t, p);
    int ni = 0, nf = 0; for (int i = 0; i < NLOG; i++) if (LOG[i].thr == t && LOG[i].proc == p) { ni += LOG[i].type == CB_init_thread; nf += LOG[i].type == CB_fini_thread; }
    CHECK(TG("C02"), nf <= 1, "process %d: monitor_fini_thread ran %d times in T%d", p, nf, t);
    bool cut = false;   // a fatal signal (or its own exit) struck inside its fini-thread callback
    if (fi >= 0) for (int i = fi; i < NLOG && (fie < 0 || i < fie); i++) if (LOG[i].thr == t && LOG[i].type == E_SIG_HANDLER && AP.async_sig && LOG[i].a == AP.signo) cut = true;
    if (AP.async_sig) for (int i = 0; i < NLOG; i++) if (LOG[i].thr == t && LOG[i].type == E_SIG_HANDLER && LOG[i].a == AP.signo && LOG[i].b > 1) cut = true;
    if (!cut && ae >= 0 && sig_hit(t, NLOG)) for (int i = ae; i < NLOG && i < (fi < 0 ? NLOG : fi); i++) if (LOG[i].thr == t && LOG[i].type == E_SIG_HANDLER && LOG[i].a == AP.signo) cut = true;
    if (t == q.mainthr) {
      CHECK(TG("C02"), p > 0 || ni == 0, "monitor_init_thread ran in the main thread");
      if (q.f >= 0) {
        bool other = q.winner != q.mainthr && q.used_threads;
        if (!other) CHECK(TG("C02"), nf == 0, "process %d: the main thread started the exit but got monitor_fini_thread", p);
        else if (!q.timeout && !cut) CHECK(TG("C02"), fie >= 0 && fie < q.f, "process %d: T%d started the exit but the main thread had not completed its monitor_fini_thread when monitor_fini_process began", p, q.winner);
      } else CHECK(TG("C02"), nf == 0 || q.nb, "process %d: the main thread got monitor_fini_thread without process exit", p);
      continue;
    }
    int cr = -1; for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_SYS_CREATE && LOG[i].a == t && LOG[i].proc == p) cr = i;
    if (cr < 0) { CHECK(TG("C08"), ni == 0 && nf == 0, "process %d: thread T%d of another process got a thread callback", p, t); continue; }
    if (is_ignored(t)) {
      CHECK(TG("C06"), ni == 0 && nf == 0, "process %d: ignored thread T%d got %s", p, t, ni ? "monitor_init_thread" : "monitor_fini_thread");
      for (int i = 0; i < NLOG; i++) CHECK(TG("C06"), !(LOG[i].type == E_SYS_KILL && LOG[i].a == t && LOG[i].thr != t), "process %d: ignored thread T%d was signalled", p, t);
      continue;
    }
    CHECK(TG("C02"), ni <= 1, "process %d: monitor_init_thread ran %d times in T%d", p, ni, t);
    if (st >= 0) CHECK(TG("C02"), ni == 1 && inie >= 0 && inie < st, "process %d: T%d started without a completed monitor_init_thread", p, t);
    if (fi >= 0) CHECK(TG("C02"), inie >= 0 && inie < fi, "process %d: T%d got monitor_fini_thread before monitor_init_thread had returned", p, t);
    if (inie >= 0 && te >= 0) CHECK(TG("C02"), st >= 0, "process %d: T%d got monitor_init_thread but its start routine never ran", p, t);
    if (te >= 0 && st >= 0 && fi < 0 && !blocked_at(t, te)) {
      bool late = q.f >= 0 && q.f < te;   // exit had given up on it
      bool late2 = q.timeout;
      // the winner may have decided that all threads are done, but monitor_fini_process is not logged yet
      if (!late && !late2) {
        bool closing = q.be >= 0 && q.be < te && !(ae >= 0 && ae < q.be);
        if (!(closing && st > q.be)) fail(TG("C02"), "process %d: T%d ended without monitor_fini_thread", p, t);
      }
    }
    if (fi >= 0 && te >= 0 && fi < te) CHECK(TG("C02"), fie >= 0 && fie < te, "process %d: T%d ended inside monitor_fini_thread", p, t);
    if (q.f >= 0 && st >= 0 && st < q.be && t != q.winner && !q.timeout && !cut && !blocked_at(t, q.f) && !(te >= 0 && te < q.f && blocked_at(t, te)))
      CHECK(TG("C02"), fie >= 0 && fie < q.f, "process %d: monitor_fini_process began before T%d had completed monitor_fini_thread (%s)", p, t, fi < 0 || fi > q.f ? "not begun" : "begun");
    if (q.f >= 0 && t == q.winner && st >= 0) CHECK(TG("C02"), (fie >= 0 && fie < q.f) || (fi >= 0 && fi < q.b) || (ae >= 0 && ae < q.b), "process %d: monitor_fini_process began before T%d, which started the exit, had its monitor_fini_thread", p, t);
    bool had = false; for (int i = 0; i < q.be; i++) if (LOG[i].type == E_SYS_CREATE && LOG[i].b == 0 && LOG[i].proc == p) had = true;   // it had threads before
    if (q.f >= 0 && fi > q.f && had) {
      bool begun = ae >= 0 && ae < q.f;
      for (int i = q.be; i < q.f && !begun; i++) if (LOG[i].thr == t && (LOG[i].type == E_SIG_HANDLER || LOG[i].type == E_APP_OP)) begun = true;
      CHECK(TG("C02"), begun, "process %d: T%d got monitor_fini_thread although it began to end after monitor_fini_process had begun", p, t);
    }
    if (q.f >= 0 && cr > q.f && had) {
      CHECK(TG("C02"), ini < 0 && st < 0, "process %d: T%d, created after monitor_fini_process had begun, %s", p, t, ini >= 0 ? "got monitor_init_thread" : "was started");
    }
    // data
    if (ini >= 0) {
      long tok = 0; bool got = false;
      { int j = pre_end_of(cr); if (j >= 0) { tok = LOG[j].b; got = true; } }
      if (got) CHECK(TG("C04"), LOG[ini].b == tok, "process %d: monitor_init_thread of T%d got %#lx, monitor_thread_pre_create returned %#lx", p, t, LOG[ini].b, tok);
      CHECK(TG("C04"), LOG[ini].a > 0, "process %d: T%d has thread number %ld", p, t, LOG[ini].a);
      for (int u = 0; u < t; u++) { int k = find_ev(0, CB_init_thread, u, p); if (k >= 0) CHECK(TG("C04"), LOG[k].a != LOG[ini].a, "process %d: T%d and T%d both have thread number %ld", p, t, u, LOG[ini].a); }
      if (fi >= 0 && inie >= 0) CHECK(TG("C04"), LOG[fi].a == LOG[inie].b, "process %d: monitor_fini_thread of T%d got %#lx, monitor_init_thread returned %#lx", p, t, LOG[fi].a, LOG[inie].b);
    }
  }
  if (q.mainthr >= 0 && q.initret >= 0) { int fi = find_ev(0, CB_fini_thread, q.mainthr, p); if (fi >= 0) CHECK(TG("C04"), LOG[fi].a == LOG[q.initret].b, "process %d: monitor_fini_thread of the main thread got %#lx, monitor_init_process returned %#lx", p, LOG[fi].a, LOG[q.initret].b); }
  // time out
  if (q.f >= 0 && q.be >= 0 && q.used_threads && nested_exit(q) < 0) {
    if (q.unresponsive) CHECK(TG("C03"), q.now >= q.last_progress + 10 * 1000000, "process %d: exit gave up on a thread %.1f s after the last progress", p, (q.now - q.last_progress) / 1e6);
    u64 lastend = q.last_progress;
    for (int i = 0; i < q.f; i++) if (LOG[i].proc == p && LOG[i].type == E_CBEND && LOG[i].a == CB_fini_thread && LOG[i].t > lastend && LOG[i].t <= q.now) lastend = LOG[i].t;
    CHECK(TG("C03"), q.now <= lastend + 13 * 1000000, "process %d: exit waited %.1f s without progress", p, (q.now - lastend) / 1e6);
  }
}
static void check_creations() {
  int depth_support = count_ev(CB_init_thread_support);
  CHECK("C06", depth_support <= 1, "monitor_init_thread_support ran %d times", depth_support);
  for (int i = 0; i < NLOG; i++) {
    if (LOG[i].type != E_APP_OP || LOG[i].a != OP_CREATE) continue;
    int t = LOG[i].thr, p = LOG[i].proc, d = LOG[i].depth;
    int pre = -1, pree = -1, post = -1, sys = -1, res = -1, npre = 0, npost = 0, nsys = 0;
    int nest = 0;   // creations by the client's callbacks
    for (int j = i + 1; j < NLOG; j++) {
      if (LOG[j].thr != t || LOG[j].depth != d) continue;
      if (LOG[j].proc != p) break;
      if (LOG[j].type == E_APP_OP && LOG[j].a == OP_CREATE) { nest++; continue; }
      if (nest) { nest -= LOG[j].type == E_APP_RES && LOG[j].a == OP_CREATE; continue; }
      if (LOG[j].type == E_APP_RES && LOG[j].a == OP_CREATE) { res = j; break; }
      if (LOG[j].type == CB_thread_pre_create) { pre = j; npre++; }
      if (LOG[j].type == E_CBEND && LOG[j].a == CB_thread_pre_create) pree = j;
      if (LOG[j].type == CB_thread_post_create) { post = j; npost++; }
      if (LOG[j].type == E_SYS_CREATE) { sys = j; nsys++; }
    }
    CHECK("C06", npre <= 1 && npost <= 1, "T%d: one pthread_create gave %d pre-create and %d post-create callbacks", t, npre, npost);
    CHECK("C05", nsys <= 1, "T%d: one pthread_create called the system's %d times", t, nsys);
    bool ign = sys >= 0 && (npre == 0 || LOG[pree].b == -1);
    if (res >= 0) {
      CHECK("C05", nsys == 1, "T%d: pthread_create did not call the system's", t);
      if (!ign) {
        CHECK("C06", npre == 1 && pree < sys, "T%d: pre-create callback does not come before the system's pthread_create", t);
        CHECK("C06", npost == 1 && post > sys, "T%d: pthread_create returned without a post-create callback after the system's", t);
        CHECK("C06", depth_support >= 1 && (find_end(0, CB_init_thread_support, -1, -1) < pre || (AP.support_creates && find_ev(0, CB_init_thread_support) < pre)), "T%d: pre-create callback before monitor_init_thread_support had returned", t);
        CHECK("C04", LOG[post].a == LOG[pree].b, "T%d: monitor_thread_post_create got %#lx, monitor_thread_pre_create returned %#lx", t, LOG[post].a, LOG[pree].b);
      } else CHECK("C06", npost == 0, "T%d: post-create callback for an ignored thread", t);
    }
  }
}
void check_all() {
  int n = nprocs();
  for (int p = 0; p < n; p++) { check_exit(p); check_library(p); if (!AP.no_thread_checks) check_threads(p); }
  if (!AP.no_thread_checks) check_creations();
}
