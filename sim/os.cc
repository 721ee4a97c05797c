// The simulated operating system.
#include "internal.h"
#include "hooks.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <dlfcn.h>
#include <setjmp.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>

void note_write(const void *p, size_t n); void sys_touch(const void *p, size_t n, bool wr);
World W; Options O; Hooks H; Sys S; Api A;
Event LOG[32768]; int NLOG; u64 LOGHASH;
int LIVE; bool RUNNING;
char FAIL_PROP[16], FAIL_MSG[1024]; bool FAILED, PRUNED;
void *EXPL_SP; u64 NTRANS; bool VERBOSE; long PARAM; const char *ONLY;
int (*BOOT_MAIN)(int, char **, char **);

// x86-64 coroutine switch
asm(".text\n.globl co_switch\n.type co_switch,@function\nco_switch:\n"
    " pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    " movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
    " popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");

static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
void mixh(u64 v) { Thr *t = cur(); t->hist = mix(t->hist, v); }
#define RET(v) do { long _r = (long)(v); mixh(_r); return (decltype(v))_r; } while (0)

u64 set2bits(const sigset_t *s) { u64 b = 0; for (int i = 1; i <= 64; i++) if (sigismember(s, i) == 1) b |= sbit(i);
  b |= *(const u64 *)s; return b; }
void bits2set(u64 b, sigset_t *s) { memset(s, 0, sizeof *s); *(u64 *)s = b; }

static const char *NAMES[128];
const char *evname(int t) {
  static bool init;
  if (!init) { init = true;
#define N(x) NAMES[x] = #x;
    N(CB_init_library) N(CB_fini_library) N(CB_init_process) N(CB_fini_process) N(CB_start_main_init) N(CB_at_main)
    N(CB_begin_process_exit) N(CB_pre_fork) N(CB_post_fork) N(CB_thread_pre_create) N(CB_thread_post_create)
    N(CB_init_thread_support) N(CB_init_thread) N(CB_fini_thread) N(CB_reset_stacksize) N(CB_pre_dlopen) N(CB_dlopen)
    N(CB_dlclose) N(CB_post_dlclose) N(CB_mpi_pre_init) N(CB_init_mpi) N(CB_fini_mpi) N(CB_mpi_post_fini) N(CB_wrap_main)
    N(E_CBEND) N(E_SYS_EXIT) N(E_PROC_END) N(E_SYS_EXEC) N(E_SYS_CREATE) N(E_THR_END) N(E_THR_GONE) N(E_SYS_KILL) N(E_SYS_FORK)
    N(E_SIG_HANDLER) N(E_SIG_DROP) N(E_STOPPED) N(E_SYS_DLOPEN) N(E_SYS_DLCLOSE) N(E_SYS_SYSTEM) N(E_SYS_WAIT) N(E_WARN) N(E_ERRX)
    N(E_SYS_SIGACTION) N(E_SYS_SIGMASK) N(E_SYS_MPI)
    N(E_APP_START) N(E_APP_END) N(E_APP_MAIN) N(E_APP_OP) N(E_APP_RES) N(E_APP_HANDLER) N(E_CLIENT_HANDLER) N(E_APP_DTOR) N(E_USER)
#undef N
  }
  return t >= 0 && t < 128 && NAMES[t] ? NAMES[t] : "?";
}

void ev(int type, long a, long b, long c) {
  if (NLOG >= (int)(sizeof LOG / sizeof LOG[0])) { fail("HANG", "event log overflow (endless execution)"); }
  Event *e = &LOG[NLOG++];
  e->type = type; e->thr = W.cur; e->depth = cur()->depth; e->proc = W.proc; e->a = a; e->b = b; e->c = c; e->t = W.now;
  LOGHASH = mix(mix(mix(mix(LOGHASH, type * 131 + W.cur), a), b), c);
  if (VERBOSE) printf("    [t=%.1fs] p%d T%d%s %s(%ld,%ld,%ld)\n", W.now / 1e6, W.proc, W.cur, cur()->depth ? "*" : "", 
                      type == E_CBEND ? "end" : evname(type), a, b, c);
}

void fail(const char *prop, const char *fmt, ...) {
  if (FAILED) { if (RUNNING) end_execution(); return; }
  if (ONLY && prop[0] == 'C' && prop[1] >= '0' && prop[1] <= '9') {
    // only the property under check counts
    if (!strstr(ONLY, prop)) return;
  }
  va_list ap; va_start(ap, fmt); vsnprintf(FAIL_MSG, sizeof FAIL_MSG, fmt, ap); va_end(ap);
  snprintf(FAIL_PROP, sizeof FAIL_PROP, "%s", prop);
  FAILED = true;
  if (RUNNING) end_execution();
}
void prune() { PRUNED = true; if (RUNNING) end_execution(); }

// ---------------------------------------------------------------- scheduler
static bool deliverable(Thr *t) {
  if (t->env) return false;
  for (int i = 0; i < t->pend.n; i++) if (!(t->mask & sbit(t->pend.q[i].sig))) return true;
  for (int i = 0; i < W.pend.n; i++) if (!(t->mask & sbit(W.pend.q[i].sig))) return true;
  return false;
}
static bool inset_pending(Thr *t) {
  for (int i = 0; i < t->pend.n; i++) if (t->bset & sbit(t->pend.q[i].sig)) return true;
  for (int i = 0; i < W.pend.n; i++) if (t->bset & sbit(W.pend.q[i].sig)) return true;
  return false;
}
static bool cancel_ready(Thr *t) { return t->cancelpoint && t->cancel_pending && t->cancel_state == 0 && !t->exiting; }
static bool cond_ok(Thr *t) {
  switch (t->bk) {
  case B_FOREVER: return false;
  case B_JOIN: return W.thr[t->barg].st == T_ZOMBIE || W.thr[t->barg].st == T_GONE;
  case B_SIGWAIT: return inset_pending(t);
  case B_WAITPID: return true;
  case B_VAR: return W.sv[t->barg] == (long)t->bset;
  case B_BARRIER: return W.sv[t->barg] >= (long)t->bset;
  default: return true;
  }
}
extern "C" bool spin_changed(Thr *t);
static bool enabled(Thr *t) {
  switch (t->st) {
  case T_READY: return true;
  case T_SLEEP: return t->wake <= W.now || (t->bk == B_SIGWAIT && inset_pending(t)) || (t->interruptible && deliverable(t)) || cancel_ready(t);
  case T_BLOCK: return cond_ok(t) || deliverable(t) || cancel_ready(t);
  default: return false;
  }
}
static void describe(char *buf, size_t n) {
  static const char *sn[] = {"free", "ready", "blocked", "sleeping", "zombie", "gone"};
  size_t k = 0;
  for (int i = 0; i < W.nthr && k + 60 < n; i++) {
    Thr *t = &W.thr[i];
    if (t->st == T_GONE || t->st == T_FREE || t->st == T_ZOMBIE) continue;
    k += snprintf(buf + k, n - k, " T%d:%s%s", i, t->yielding ? "spinning" : sn[t->st], t->depth ? "(in handler)" : "");
  }
}
TlsInfo TLS;   // the library's thread-local variables
char *TlsInfo::of(int i) { static char *b; if (!b) b = (char *)malloc(size * MAXTHR); return b + size * i; }
static void tls_new(Thr *t) { if (!TLS.size) return; char *p = t->id == 0 ? TLS.live : TLS.of(t->id); memcpy(p, TLS.image, TLS.filesz); memset(p + TLS.filesz, 0, TLS.size - TLS.filesz); }
static void switch_to(Thr *t) {
  Thr *c = cur();
  if (t == c) return;
  W.cur = t->id;
  if (TLS.size) { memcpy(TLS.of(c->id), TLS.live, TLS.size); memcpy(TLS.live, TLS.of(t->id), TLS.size); }
  co_switch(&c->sp, t->sp);
}
// choose who runs next; curok: the current thread could go on
static void sched(bool curok) {
  Thr *c = cur(); bool rescued = false;
  c->hist = mix(c->hist, 0x1001);   // the history stands for the thread's program counter
  if (++W.steps > O.max_steps) fail("HANG", "no end after %d scheduling steps", W.steps);
  for (;;) {
    int opt[MAXTHR + 2], n = 0; u64 cost = 0;
    for (int i = 0; i < W.nthr; i++) { Thr *t = &W.thr[i]; if (t->yielding && spin_changed(t)) { t->yielding = false; if (!t->yieldcall) t->same = 0; } }
    bool have = curok && !c->yielding;
    if (have) opt[n++] = c->id;
    for (int i = 0; i < W.nthr; i++) {
      Thr *t = &W.thr[i];
      if (t == c || t->yielding || !enabled(t)) continue;
      if (have) cost |= 1ull << n;
      opt[n++] = i;
    }
    if (!have && !c->yielding && enabled(c)) opt[n++] = c->id;
    // the order of timers that fire together is a matter of timing: it costs like a preemption
    if (!have && n > 1 && W.thr[opt[0]].st == T_SLEEP && W.thr[opt[0]].wake <= W.now)
      for (int i = 1; i < n; i++) { Thr *t = &W.thr[opt[i]]; if (t->st == T_SLEEP && t->wake <= W.now) cost |= 1ull << i; }
    if (!have && O.delay) for (int i = 1; i < n; i++) cost |= 1ull << i;
    Thr *sl = nullptr;
    for (int i = 0; i < W.nthr; i++) { Thr *t = &W.thr[i]; if (t->st == T_SLEEP && t->wake > W.now && !enabled(t) && (!sl || t->wake < sl->wake)) sl = t; }
    int normal = n;
    if (n > 0 && sl && O.early_wake && sl->wake - W.now <= 3000000) { cost |= 1ull << n; opt[n++] = 1000 + sl->id; }
    if (have && O.stall && LIVE > 1 && !c->env) { cost |= 1ull << n; opt[n++] = 2000; }
    (void)normal;
    if (n == 0 && sl) {
      W.now = sl->wake;
      if (W.now > O.horizon) { char b[400] = ""; describe(b, sizeof b); fail("HANG", "process does not end: still running after %.0f s of simulated time;%s", W.now / 1e6, b); }
      continue;
    }
    if (n == 0) {
      // only spinners, if any: let them spin a bit more, then it is a deadlock
      bool any = false;
      for (int i = 0; i < W.nthr; i++) { Thr *t = &W.thr[i]; if (t->yielding && t->spun < 40) { t->yielding = false; t->same = 0; t->spun++; any = true; } }
      if (any) { rescued = true; continue; }
      char b[400] = ""; describe(b, sizeof b);
      fail("HANG", "deadlock: no thread can run;%s", b);
    }
    if (!rescued) for (int i = 0; i < W.nthr; i++) W.thr[i].spun = 0;
    NTRANS++;
    int k = n > 1 ? choose(K_SCHED, n, cost) : 0;
    int o = opt[k];
    if (o == 2000) { c->st = T_SLEEP; c->wake = W.now + O.stall; c->bk = B_NONE; c->interruptible = false; c->cancelpoint = false; sched(false); c->st = T_READY; return; }
    if (o >= 1000) { W.now = sl->wake; o -= 1000; }
    switch_to(&W.thr[o]);
    return;
  }
}

void point() {
  if (!RUNNING) return;
  Thr *c = cur();
  sched(true);
  if (!c->env) deliver_signals();
  if (c->cancel_async) testcancel();
}
void app_point() { cur()->same = 0; point(); }

// block the current thread until its condition holds; runs handlers meanwhile
void block_until(BKind k, long arg, u64 bset, bool interruptible, bool cancelpoint) {
  Thr *c = cur();
  c->interrupts = 0;
  for (;;) {
    c->st = T_BLOCK; c->bk = k; c->barg = arg; c->bset = bset; c->interruptible = interruptible; c->cancelpoint = cancelpoint;
    c->same = 0;
    sched(enabled(c));
    bool ok = cond_ok(c), canc = cancel_ready(c);
    c->st = T_READY; c->bk = B_NONE; c->cancelpoint = false;
    if (ok) return;
    int before = c->interrupts;
    deliver_signals();
    if (canc) { c->cancelpoint = true; testcancel(); c->cancelpoint = false; }
    if (interruptible && c->interrupts > before) return;
  }
}
// returns true if interrupted by a handler
static bool do_sleep(u64 usec, bool cancelpoint, BKind bk = B_NONE, u64 bset = 0) {
  if (cur()->nowait == cur()->depth + 1) fail("C21", "monitor_broadcast_signal sleeps");
  Thr *c = cur();
  c->interrupts = 0;
  c->st = T_SLEEP; c->wake = W.now + usec; c->bk = bk; c->bset = bset; c->interruptible = true; c->cancelpoint = cancelpoint; c->same = 0;
  sched(enabled(c));
  bool canc = cancel_ready(c), done = c->wake <= W.now;
  c->st = T_READY; c->cancelpoint = false;
  if (bk == B_SIGWAIT && inset_pending(c)) return false;
  c->bk = B_NONE;
  deliver_signals();
  if (canc) { c->cancelpoint = true; testcancel(); c->cancelpoint = false; }
  mixh(W.now);
  return c->interrupts > 0 && !done;
}
int app_sleep(u64 usec) { return do_sleep(usec, true); }
// a blocking system call that the kernel restarts after handlers that ask for it (SA_RESTART); returns if one did not
void app_read() { Thr *c = cur(); c->norestart = false; while (!c->norestart) block_until(B_FOREVER, 0, 0, true, true); c->norestart = false; mixh(0x4ead); }
void app_compute(bool cancelable) { block_until(B_FOREVER, 0, 0, false, cancelable); }
void app_wait_var(int i, long v) { block_until(B_VAR, i, v, false, false); mixh(v); }
long sv_get(int i) { long v = W.sv[i]; mixh(v); return v; }
void sv_set(int i, long v) { W.sv[i] = v; }

int pick(int n) { if (n <= 1) return 0; int r = choose(K_PICK, n, 0); if (RUNNING) mixh(r + 77); return r; }
int pick_dev(int n) { if (n <= 1) return 0; int r = choose(K_DEV, n, ~1ull); if (RUNNING) mixh(r + 177); return r; }

// ---------------------------------------------------------------- threads
static char *STACKS; enum { STK = 160 * 1024 };
static void thr_finish(void *ret) __attribute__((noreturn));
static void sys_exit(int status) __attribute__((noreturn));

static void thr_entry() {
  Thr *t = cur();
  if (t->env) { ((void (*)(long))t->start)((long)t->arg); t->st = T_GONE; LIVE--; sched(false); abort(); }
  deliver_signals();
  void *r = t->start(t->arg);
  thr_finish(r);
}
Thr *new_thr() {
  if (W.nthr >= MAXTHR) { fprintf(stderr, "monsim: too many threads\n"); exit(3); }
  Thr *t = &W.thr[W.nthr];
  memset(t, 0, sizeof *t);
  t->id = W.nthr++;
  t->stack = STACKS + (size_t)t->id * (STK + 4096) + 4096; t->stack_size = STK;
  u64 *sp = (u64 *)((char *)t->stack + STK - 64);
  *--sp = 0; *--sp = (u64)thr_entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  t->sp = sp;
  t->st = T_READY;
  t->hist = mix(0, t->id); tls_new(t);
  LIVE++;
  return t;
}
bool on_stack_of(Thr *t, const void *p) { return p >= t->stack && p < (char *)t->stack + t->stack_size; }
bool in_lib_text(const void *p) { return (char *)p >= LIB.text_lo && (char *)p < LIB.text_hi; }

static u64 alloc_ptid() {
  if (W.nfree) return W.free_ptid[--W.nfree];
  return 0x7f0000001000ull + 0x1000ull * W.nptid++;
}
static void free_ptid(u64 p) { W.free_ptid[W.nfree++] = p; }
Thr *thr_by_ptid(u64 p) {
  for (int i = 0; i < W.nthr; i++) { Thr *t = &W.thr[i]; if (!t->env && t->ptid == p && t->st != T_FREE && t->st != T_GONE) return t; }
  return nullptr;
}
int spawn_env(void (*fn)(long), long arg) {
  Thr *t = new_thr(); t->env = true; t->start = (start_fn *)(void *)fn; t->arg = (void *)arg; return t->id;
}
static int live_proc_threads() { int n = 0; for (int i = 0; i < W.nthr; i++) { Thr *t = &W.thr[i]; if (!t->env && t->st != T_FREE && t->st != T_ZOMBIE && t->st != T_GONE) n++; } return n; }

static void thr_die() __attribute__((noreturn));
static void thr_die() {
  Thr *t = cur();
  if (live_proc_threads() == 1) sys_exit(0);
  ev(E_THR_GONE, t->id);
  t->st = (t->detached) ? T_GONE : T_ZOMBIE;
  if (t->detached && !t->is_main) free_ptid(t->ptid);
  LIVE--;
  sched(false);
  abort();
}
static void thr_finish(void *ret) {
  Thr *t = cur();
  t->exiting = true; t->ret = ret;
  ev(E_THR_END, t->id, (long)ret);
  point();
  for (int round = 0; round < 4; round++) {
    bool any = false;
    for (int k = 0; k < MAXKEY; k++) if (W.key_used[k] && t->tsd[k] && W.key_dtor[k]) {
      void *v = t->tsd[k]; t->tsd[k] = nullptr; any = true; W.key_dtor[k](v);
    }
    if (!any) break;
  }
  thr_die();
}
struct UnwindBuf { __jmp_buf_tag jb; };
static void do_unwind() __attribute__((noreturn));
static void do_unwind() {
  Thr *t = cur();
  t->exiting = true;
  if (t->unwind_top) { __pthread_unwind_buf_t *b = (__pthread_unwind_buf_t *)t->unwind_top; siglongjmp((struct __jmp_buf_tag *)b, 1); }
  thr_finish(t->ret);
}
bool testcancel() {
  Thr *t = cur();
  if (t->cancel_pending && t->cancel_state == 0 && !t->exiting) {
    t->ret = PTHREAD_CANCELED; ev(E_APP_END, t->id, 3); if (S.on_cancel) S.on_cancel(); do_unwind();
  }
  return false;
}
void app_cancel(int tid) {
  point();
  Thr *t = &W.thr[tid];
  if (t->st == T_ZOMBIE || t->st == T_GONE) return;
  t->cancel_pending = true;
}
int app_join(int tid, void **ret) {
  block_until(B_JOIN, tid, 0, false, true);
  Thr *t = &W.thr[tid];
  if (ret) *ret = t->ret;
  if (t->st == T_ZOMBIE) { t->st = T_GONE; t->joined = true; if (!t->is_main) free_ptid(t->ptid); }
  mixh((u64)t->ret);
  return 0;
}
void app_detach(int tid) {
  Thr *t = &W.thr[tid];
  point();
  if (t->st == T_ZOMBIE) { t->st = T_GONE; if (!t->is_main) free_ptid(t->ptid); } else t->detached = true;
}

EXPORT void sim___pthread_register_cancel(__pthread_unwind_buf_t *b) { Thr *t = cur(); b->__pad[0] = t->unwind_top; t->unwind_top = b; }
EXPORT void sim___pthread_unregister_cancel(__pthread_unwind_buf_t *b) { cur()->unwind_top = b->__pad[0]; }
EXPORT void sim___pthread_unwind_next(__pthread_unwind_buf_t *b) { cur()->unwind_top = b->__pad[0]; do_unwind(); }

EXPORT int sim_pthread_create(pthread_t *th, const pthread_attr_t *attr, start_fn *start, void *arg) {
  point();
  Thr *c = cur();
  if (O.create_fault == 2 || (O.create_fault && pick(2))) { ev(E_SYS_CREATE, -1, EAGAIN); if (S.on_create) S.on_create(nullptr, attr, start, arg); RET((int)EAGAIN); }
  Thr *t = new_thr();
  t->ptid = alloc_ptid();
  t->start = start; t->arg = arg; t->mask = c->mask; t->creator = c->id;
  t->attr_ptr = attr;
  if (attr) { size_t s = 0; pthread_attr_getstacksize(attr, &s); t->attr_stack = s; int d = 0; pthread_attr_getdetachstate(attr, &d); t->detached = d == PTHREAD_CREATE_DETACHED; }
  t->hist = mix(t->hist, c->hist);
  if (th) *th = t->ptid;
  ev(E_SYS_CREATE, t->id, 0);
  if (S.on_create) S.on_create(t, attr, start, arg);
  mixh(t->ptid);
  point();
  return 0;
}
EXPORT void sim_pthread_exit(void *v) { Thr *t = cur(); t->ret = v; do_unwind(); }
EXPORT pthread_t sim_pthread_self() { return cur()->ptid; }
EXPORT int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
EXPORT int sim_pthread_kill(pthread_t p, int sig) {
  point();
  Thr *t = thr_by_ptid(p);
  if (!t) {
    ev(E_SYS_KILL, -1, sig, (long)p);
    if (!O.dead_kill_ok) fail(S.deadkill_prop ? S.deadkill_prop : "DEADKILL", "signal %d sent to a thread that no longer exists (pthread_t %#lx)", sig, (long)p);
    RET((int)ESRCH);
  }
  ev(E_SYS_KILL, t->id, sig);
  if (sig < 0 || sig > 64) RET((int)EINVAL);
  if (t->st == T_ZOMBIE || sig == 0) RET(0);
  send_thread(t->id, sig, SI_TKILL, 0);
  if (t == cur()) deliver_signals();
  mixh(0);
  return 0;
}
EXPORT int sim_pthread_join(pthread_t p, void **ret) { Thr *t = thr_by_ptid(p); if (!t) RET((int)ESRCH); return app_join(t->id, ret); }
EXPORT int sim_pthread_detach(pthread_t p) { Thr *t = thr_by_ptid(p); if (!t) RET((int)ESRCH); app_detach(t->id); return 0; }
EXPORT int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  for (int i = 0; i < MAXKEY; i++) if (!W.key_used[i]) { W.key_used[i] = true; W.key_dtor[i] = d; for (int j = 0; j < W.nthr; j++) W.thr[j].tsd[i] = nullptr; *k = i; mixh(i); return 0; }
  return EAGAIN;
}
EXPORT int sim_pthread_key_delete(pthread_key_t k) { if (k >= MAXKEY || !W.key_used[k]) return EINVAL; W.key_used[k] = false; W.key_dtor[k] = nullptr; return 0; }
EXPORT void *sim_pthread_getspecific(pthread_key_t k) { if (k >= MAXKEY || !W.key_used[k]) return nullptr; return cur()->tsd[k]; }
EXPORT int sim_pthread_setspecific(pthread_key_t k, const void *v) { if (k >= MAXKEY || !W.key_used[k]) return EINVAL; cur()->tsd[k] = (void *)v; return 0; }
EXPORT int sim_pthread_setcancelstate(int s, int *old) { Thr *t = cur(); if (t->cancel_async) { t->same = 0; point(); } if (old) *old = t->cancel_state; t->cancel_state = s; return 0; }
EXPORT int sim_pthread_setcanceltype(int s, int *old) { if (old) *old = cur()->cancel_async; cur()->cancel_async = s == PTHREAD_CANCEL_ASYNCHRONOUS; return 0; }
EXPORT void sim_pthread_testcancel() { testcancel(); }
EXPORT int sim_pthread_cancel(pthread_t p) { Thr *t = thr_by_ptid(p); if (!t) return ESRCH; app_cancel(t->id); return 0; }
EXPORT int sim_pthread_attr_init(pthread_attr_t *a) { if ((O.attr_fault & 1) && pick(2)) RET((int)ENOMEM); sys_touch(a, sizeof *a, true); return pthread_attr_init(a); }
EXPORT int sim_pthread_attr_destroy(pthread_attr_t *a) { sys_touch(a, sizeof *a, true); return pthread_attr_destroy(a); }
EXPORT int sim_pthread_attr_getstacksize(const pthread_attr_t *a, size_t *s) { if ((O.attr_fault & 2) && pick(2)) RET((int)EINVAL); sys_touch(a, sizeof *a, false); int r = pthread_attr_getstacksize(a, s); note_write(s, sizeof *s); mixh(*s); return r; }
EXPORT int sim_pthread_attr_setstacksize(pthread_attr_t *a, size_t s) { if ((O.attr_fault & 4) && pick(2)) RET((int)EINVAL); sys_touch(a, sizeof *a, true); return pthread_attr_setstacksize(a, s); }
EXPORT int sim_sched_yield() {
  Thr *c = cur(); 
  // fair yield: anyone else may run at no cost; after two reads of an unchanged word it is busy waiting for that word
  if (c->nowait == c->depth + 1) fail("C21", "monitor_broadcast_signal waits for another thread");
  c->yielding = true; c->yieldcall = c->same < 2; c->yield_step = W.steps + 1; sched(true);
  c->yielding = false; c->yieldcall = false; if (!c->env) deliver_signals(); return 0;
}

// mutexes, in case the library comes to use them
struct SimMutex { int owner1; };
static SimMutex *mx(void *m) { return (SimMutex *)m; }
EXPORT int sim_pthread_mutex_lock(void *m) { point(); while (mx(m)->owner1) { Thr *c = cur(); c->last_addr = &mx(m)->owner1; c->last_size = sizeof(int); c->last_val = mx(m)->owner1; c->same = 2; sim_sched_yield(); } mx(m)->owner1 = W.cur + 1; mixh(1); return 0; }
EXPORT int sim_pthread_mutex_trylock(void *m) { point(); if (mx(m)->owner1) RET((int)EBUSY); mx(m)->owner1 = W.cur + 1; mixh(0); return 0; }
EXPORT int sim_pthread_mutex_unlock(void *m) { point(); mx(m)->owner1 = 0; return 0; }
EXPORT int sim_pthread_mutex_init(void *m, void *) { mx(m)->owner1 = 0; return 0; }
EXPORT int sim_pthread_mutex_destroy(void *) { return 0; }
EXPORT int sim_pthread_spin_lock(void *m) { return sim_pthread_mutex_lock(m); }
EXPORT int sim_pthread_spin_trylock(void *m) { return sim_pthread_mutex_trylock(m); }
EXPORT int sim_pthread_spin_unlock(void *m) { return sim_pthread_mutex_unlock(m); }
EXPORT int sim_pthread_once(int *o, void (*f)()) { if (*o == 0) { *o = 2; f(); } return 0; }

// ---------------------------------------------------------------- signals
static bool default_ignored(int s) { return s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH; }
static bool default_stop(int s) { return s == SIGSTOP || s == SIGTSTP || s == SIGTTIN || s == SIGTTOU; }
static bool sig_ignored(int s) { return W.act[s].sa_handler == SIG_IGN || (W.act[s].sa_handler == SIG_DFL && default_ignored(s)); }
static void enqueue(SigQ *q, int sig, int code, int val) {
  if (sig < 34) for (int i = 0; i < q->n; i++) if (q->q[i].sig == sig) return;
  if (q->n >= MAXPEND) return;
  PendSig *p = &q->q[q->n++];
  memset(p, 0, sizeof *p);
  p->sig = sig; p->si.si_signo = sig; p->si.si_code = code; p->si.si_value.sival_int = val; p->si.si_pid = 4242;
}
static bool dequeue(SigQ *q, u64 set, PendSig *out) {
  int best = -1;
  for (int i = 0; i < q->n; i++) if ((set & sbit(q->q[i].sig)) && (best < 0 || q->q[i].sig < q->q[best].sig)) best = i;
  if (best < 0) return false;
  *out = q->q[best];
  memmove(&q->q[best], &q->q[best + 1], sizeof(PendSig) * (q->n - best - 1)); q->n--;
  return true;
}
int send_thread(int tid, int sig, int code, int val) {
  Thr *t = &W.thr[tid];
  if (t->st == T_FREE || t->st == T_GONE || t->st == T_ZOMBIE) return -1;
  bool waiting = t->bk == B_SIGWAIT && (t->bset & sbit(sig));
  if (sig_ignored(sig) && !(t->mask & sbit(sig)) && !waiting) { ev(E_SIG_DROP, sig, tid); return 0; }
  enqueue(&t->pend, sig, code, val);
  return 0;
}
void env_kill_process(int sig, int code, int val) {
  point();
  int el[MAXTHR], n = 0;
  for (int i = 0; i < W.nthr; i++) { Thr *t = &W.thr[i]; if (t->env || t->st == T_FREE || t->st == T_GONE || t->st == T_ZOMBIE) continue;
    if (!(t->mask & sbit(sig)) || (t->bk == B_SIGWAIT && (t->bset & sbit(sig)))) el[n++] = i; }
  if (n == 0) { enqueue(&W.pend, sig, code, val); return; }
  int k = n > 1 ? pick(n) : 0;
  send_thread(el[k], sig, code, val);
}
static void run_default(int sig) {
  if (default_ignored(sig)) { ev(E_SIG_DROP, sig); return; }
  if (default_stop(sig)) { ev(E_STOPPED, sig); return; }
  process_end(END_SIGNAL, sig);
}
static void run_handler(int sig, siginfo_t *si) {
  Thr *t = cur();
  struct sigaction *sa = &W.act[sig];
  if (sa->sa_handler == SIG_IGN) { ev(E_SIG_DROP, sig); return; }
  if (sa->sa_handler == SIG_DFL) { run_default(sig); return; }
  if (S.on_sig_deliver) S.on_sig_deliver(sig, si);
  struct sigaction a = *sa;
  u64 old = t->mask;
  t->mask |= set2bits(&a.sa_mask); if (!(a.sa_flags & SA_NODEFER)) t->mask |= sbit(sig);
  t->mask &= ~(sbit(SIGKILL) | sbit(SIGSTOP));
  if (a.sa_flags & SA_RESETHAND) sa->sa_handler = SIG_DFL;
  t->depth++;
  TState st = t->st; BKind bk = t->bk; bool cp = t->cancelpoint; u64 wake = t->wake; long barg = t->barg; u64 bset = t->bset; bool intr = t->interruptible;
  const void *la = t->last_addr; u64 lv = t->last_val; bool yl = t->yielding; int interrupts = t->interrupts;
  t->st = T_READY; t->bk = B_NONE; t->cancelpoint = false; t->yielding = false; t->same = 0; t->last_addr = nullptr;
  ev(E_SIG_HANDLER, sig, t->depth);
  t->hist = mix(t->hist, 0x5151 + sig);
  siginfo_t info = *si; static ucontext_t uc; 
  if (a.sa_flags & SA_SIGINFO) a.sa_sigaction(sig, &info, &uc);
  else a.sa_handler(sig);
  t = cur();
  t->st = st; t->bk = bk; t->cancelpoint = cp; t->wake = wake; t->barg = barg; t->bset = bset; t->interruptible = intr;
  t->last_addr = la; t->last_val = lv; t->yielding = yl; t->same = 0;
  t->depth--;
  t->mask = old;
  t->interrupts = interrupts + 1;
  if (!(a.sa_flags & SA_RESTART)) t->norestart = true;
  t->hist = mix(t->hist, 0x5252 + sig);
  point();
}
void deliver_signals() {
  Thr *t = cur();
  if (t->env) return;
  for (;;) {
    PendSig p;
    if (!t->pend.n && !W.pend.n) return;
    if (dequeue(&t->pend, ~t->mask, &p) || dequeue(&W.pend, ~t->mask, &p)) run_handler(p.sig, &p.si);
    else return;
  }
}
void app_fault(int sig) {
  // a fault happens again when its handler returns, a trap does not
  for (int i = 0, n = sig == SIGTRAP || sig == SIGSYS ? 1 : 6; i < n; i++) {
    Thr *t = cur();
    if ((t->mask & sbit(sig)) || W.act[sig].sa_handler == SIG_IGN) process_end(END_SIGNAL, sig);
    siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; si.si_code = 1; si.si_addr = (void *)0xdead0;
    run_handler(sig, &si);
    if (S.fault_fixed && S.fault_fixed()) return;
  }
  ev(E_USER, 999, sig);
  fail("C12", "a fault with signal %d did not end the process although its action is the default", sig);
}
EXPORT int sim_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  point(); sys_touch(a, sizeof *a, false);
  if (sig <= 0 || sig > 64 || sig == 32 || sig == 33 || (a && (sig == SIGKILL || sig == SIGSTOP))) { cur()->err = EINVAL; RET(-1); }
  if (S.on_sigaction) S.on_sigaction(sig, a);
  struct sigaction old = W.act[sig];
  if (a) { W.act[sig] = *a; 
    u64 m = set2bits(&a->sa_mask) & ~(sbit(SIGKILL) | sbit(SIGSTOP)); bits2set(m, &W.act[sig].sa_mask);
    if (sig_ignored(sig)) { PendSig p; while (dequeue(&W.pend, sbit(sig), &p)) {} for (int i = 0; i < W.nthr; i++) while (dequeue(&W.thr[i].pend, sbit(sig), &p)) {} } }
  if (o) { *o = old; note_write(o, sizeof *o); }
  mixh((u64)old.sa_handler); mixh(old.sa_flags); mixh(set2bits(&old.sa_mask));
  return 0;
}
static int do_mask(int how, const sigset_t *set, sigset_t *old) {
  Thr *t = cur();
  sys_touch(set, sizeof *set, false); sys_touch(old, sizeof *old, true);
  u64 m = t->mask;
  if (set) {
    u64 s = set2bits(set) & ~(sbit(SIGKILL) | sbit(SIGSTOP) | sbit(32) | sbit(33));
    if (how == SIG_BLOCK) t->mask |= s; else if (how == SIG_UNBLOCK) t->mask &= ~s; else if (how == SIG_SETMASK) t->mask = s; else { mixh(EINVAL); return EINVAL; }
  }
  if (old) { bits2set(m, old); note_write(old, sizeof *old); }
  mixh(m);
  deliver_signals();
  return 0;
}
EXPORT int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { if (S.on_sigmask) S.on_sigmask(1, how, s); return do_mask(how, s, o); }
EXPORT int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o) { if (S.on_sigmask) S.on_sigmask(0, how, s); int r = do_mask(how, s, o); if (r) { cur()->err = r; return -1; } return 0; }
EXPORT int sim_sigpending(sigset_t *s) { u64 b = 0; for (int i = 0; i < cur()->pend.n; i++) b |= sbit(cur()->pend.q[i].sig); bits2set(b, s); return 0; }
EXPORT int sim_raise(int sig) { return sim_pthread_kill(cur()->ptid, sig); }
EXPORT int sim_kill(pid_t pid, int sig) { if (pid == W.pid) { env_kill_process(sig, SI_USER, 0); deliver_signals(); } return 0; }
EXPORT void sim_abort() { W.act[SIGABRT].sa_handler == SIG_IGN ? (void)0 : (void)sim_raise(SIGABRT); process_end(END_SIGNAL, SIGABRT); }
EXPORT int sim_sigtimedwait(const sigset_t *set, siginfo_t *info, const struct timespec *to) {
  Thr *t = cur();
  point(); sys_touch(set, sizeof *set, false); sys_touch(info, sizeof *info, true); sys_touch(to, sizeof *to, false);
  u64 bs = set2bits(set) & ~(sbit(SIGKILL) | sbit(SIGSTOP) | sbit(32) | sbit(33));
  if (S.on_sigwait) { int r = S.on_sigwait(bs, info, to); if (r != -1000) { mixh(r); return r; } }
  t->cancelpoint = true; testcancel(); t->cancelpoint = false;
  PendSig p;
  if (to && (to->tv_nsec < 0 || to->tv_nsec >= 1000000000L)) { t->err = EINVAL; RET(-1); }
  for (int pass = 0; ; pass++) {
    if (dequeue(&t->pend, bs, &p) || dequeue(&W.pend, bs, &p)) { if (info) *info = p.si; mixh(p.sig); mixh(p.si.si_value.sival_int); t->bk = B_NONE; return p.sig; }
    if (pass) { t->err = t->interrupts ? EINTR : EAGAIN; t->bk = B_NONE; RET(-1); }
    if (to) { u64 us = (u64)to->tv_sec * 1000000 + to->tv_nsec / 1000; if (us == 0) { t->err = EAGAIN; RET(-1); } do_sleep(us, true, B_SIGWAIT, bs); t->bk = B_NONE; }
    else block_until(B_SIGWAIT, 0, bs, true, true);
  }
}
EXPORT int sim_sigwaitinfo(const sigset_t *set, siginfo_t *info) { return sim_sigtimedwait(set, info, nullptr); }
EXPORT int sim_sigwait(const sigset_t *set, int *sig) { int r; do r = sim_sigtimedwait(set, nullptr, nullptr); while (r < 0 && cur()->err == EINTR); if (r < 0) return cur()->err; *sig = r; return 0; }
EXPORT int sim_sigsuspend(const sigset_t *m) { Thr *t = cur(); u64 o = t->mask; t->mask = set2bits(m); block_until(B_FOREVER, 0, 0, true, true); t->mask = o; t->err = EINTR; return -1; }
EXPORT int sim_pause() { block_until(B_FOREVER, 0, 0, true, true); cur()->err = EINTR; return -1; }

// ---------------------------------------------------------------- time
EXPORT int sim_usleep(useconds_t us) { cur()->cancelpoint = true; testcancel(); cur()->cancelpoint = false; if (do_sleep(us, true)) { cur()->err = EINTR; return -1; } return 0; }
EXPORT unsigned sim_sleep(unsigned s) { cur()->cancelpoint = true; testcancel(); cur()->cancelpoint = false; u64 end = W.now + (u64)s * 1000000; if (do_sleep((u64)s * 1000000, true)) return W.now >= end ? 0 : (end - W.now + 999999) / 1000000; return 0; }
EXPORT int sim_nanosleep(const struct timespec *r, struct timespec *rem) {
  cur()->cancelpoint = true; testcancel(); cur()->cancelpoint = false;
  u64 us = (u64)r->tv_sec * 1000000 + (r->tv_nsec + 999) / 1000, end = W.now + us;
  if (do_sleep(us, true)) { if (rem) { u64 l = end > W.now ? end - W.now : 0; rem->tv_sec = l / 1000000; rem->tv_nsec = l % 1000000 * 1000; } cur()->err = EINTR; return -1; }
  return 0;
}
EXPORT int sim_clock_nanosleep(clockid_t, int flags, const struct timespec *r, struct timespec *rem) {
  struct timespec q = *r;
  if (flags & TIMER_ABSTIME) { u64 tgt = (u64)r->tv_sec * 1000000 + r->tv_nsec / 1000, n = W.now + 1000000000000ull; u64 d = tgt > n ? tgt - n : 0; q.tv_sec = d / 1000000; q.tv_nsec = d % 1000000 * 1000; }
  return sim_nanosleep(&q, rem) ? EINTR : 0;
}
EXPORT int sim_poll(void *, unsigned long, int ms) { return do_sleep((u64)(ms < 0 ? 1000000000 : ms) * 1000, true) ? -1 : 0; }
EXPORT int sim_select(int, void *, void *, void *, struct timeval *tv) { return do_sleep(tv ? (u64)tv->tv_sec * 1000000 + tv->tv_usec : 1000000000000ull, true) ? -1 : 0; }
static u64 mono() { u64 t = W.now + 1000000000000ull; mixh(W.now); return t; }
static u64 wall() { mixh(W.rt_off); return mono() + W.rt_off; }   // the time of day may be set while the program runs
EXPORT int sim_gettimeofday(struct timeval *tv, void *) { u64 t = wall(); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
EXPORT int sim_clock_gettime(clockid_t c, struct timespec *ts) { u64 t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall() : mono(); ts->tv_sec = t / 1000000; ts->tv_nsec = t % 1000000 * 1000; return 0; }
EXPORT time_t sim_time(time_t *p) { time_t t = wall() / 1000000; if (p) *p = t; return t; }

// ---------------------------------------------------------------- process
void process_end(int kind, long status) {
  ev(E_PROC_END, kind, status);
  W.ended = true; W.end_kind = kind; W.end_status = status;
  end_execution();
  abort();
}
static void sys_exit(int status) {
  // libc's exit: each registered function runs once, the last first; a second thread has to wait (for ever)
  if (W.exit_owner && W.exit_owner != W.cur + 1) block_until(B_FOREVER, 0, 0, false, false);
  W.exit_owner = W.cur + 1;
  while (W.natexit > 0) { void (*f)(void) = W.atexit_fn[--W.natexit]; f(); }
  process_end(END_EXIT, status & 0xff);
}
EXPORT void sim_exit(int status) { point(); ev(E_SYS_EXIT, status, 0, cur()->exp_status); sys_exit(status); }
EXPORT void sim__exit(int status) { point(); ev(E_SYS_EXIT, status, 1, cur()->exp_status); process_end(END_EXIT, status & 0xff); }
EXPORT void sim__Exit(int status) { sim__exit(status); }
EXPORT void sim_errx(int code, const char *fmt, ...) { char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); ev(E_ERRX, code);
  if (VERBOSE) printf("    errx: %s\n", b);
  if (!S.errx_ok) fail("CRASH", "libmonitor gave up with errx: %s", b);
  sys_exit(code); }
EXPORT void sim_err(int code, const char *fmt, ...) { (void)fmt; ev(E_ERRX, code); fail("CRASH", "libmonitor gave up with err"); sys_exit(code); }
EXPORT void sim___stack_chk_fail() { fail("CRASH", "stack buffer overflow detected (stack protector)"); abort(); }
EXPORT void sim___assert_fail(const char *e, const char *, unsigned, const char *) { fail("CRASH", "assertion failed: %s", e); abort(); }
EXPORT pid_t sim_getpid() { mixh(W.pid); return W.pid; }
EXPORT pid_t sim_gettid() { Thr *t = cur(); return W.proc && t->id == W.fork_thr[W.proc] ? W.pid : t->id == 0 ? W.pid : W.pid * 100 + t->id; }
EXPORT long sim_syscall(long n, ...) {
  if (n == SYS_gettid) return sim_gettid();
  if (n == SYS_getpid) return W.pid;
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long); va_end(ap);
  if (n == SYS_tgkill) { for (int i = 0; i < W.nthr; i++) { Thr *t = &W.thr[i]; int s = W.cur; W.cur = i; long id = sim_gettid(); W.cur = s; if (id == b && !t->env && t->st != T_FREE && t->st != T_GONE) return sim_pthread_kill(t->ptid, c); } cur()->err = ESRCH; return -1; }
  if (n == SYS_exit_group) { sim__exit((int)a); }
  fprintf(stderr, "monsim: the library uses system call %ld, which is not simulated\n", n); exit(3);
}
EXPORT pid_t sim_getppid() { return W.ppid; }
EXPORT int sim_atexit(void (*f)(void)) { if (W.natexit < 16) W.atexit_fn[W.natexit++] = f; return 0; }

EXPORT pid_t sim_fork() {
  point();
  int r;
  if (S.on_prefork) S.on_prefork();
  if (O.follow == 1) r = 0; else if (O.follow == 2) r = 1;
  else r = pick(O.fork_mode & 1 ? 3 : 2);
  if (r == 2) { ev(E_SYS_FORK, -1); cur()->err = EAGAIN; mixh(-1); return -1; }
  int child = W.pid + 1 + W.child_n++;
  if (r == 0) { ev(E_SYS_FORK, child); mixh(child); point(); return child; }
  // follow the child: only this thread goes on
  for (int i = 0; i < W.nthr; i++) if (i != W.cur) { Thr *t = &W.thr[i]; if (t->st != T_FREE && t->st != T_GONE) { if (t->st != T_ZOMBIE) LIVE--; t->st = T_GONE; t->yielding = false; } }
  W.ppid = W.pid; W.pid = child; W.proc++; W.child_n = 0; W.fork_thr[W.proc] = W.cur;
  W.pend.n = 0; cur()->pend.n = 0; if (W.exit_owner && W.exit_owner != W.cur + 1) W.exit_owner = 0;
  ev(E_SYS_FORK, 0);
  mixh(0);
  if (S.on_child) S.on_child();
  return 0;
}
EXPORT pid_t sim_vfork() { return sim_fork(); }
EXPORT pid_t sim_waitpid(pid_t pid, int *st, int opt) {
  point();
  if (S.on_waitpid) { pid_t r = S.on_waitpid(pid, st, opt); mixh(r); return r; }
  if (st) *st = 0;
  return pid;
}
EXPORT pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
EXPORT pid_t sim_wait4(pid_t pid, int *st, int opt, void *) { return sim_waitpid(pid, st, opt); }

static const char *norm(const char *p) { while (p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') p++; } return p; }
static int file_lookup(const char *p) { // -1 none, 0 plain, 1 executable, 2 dir
  char b[PATH_MAX * 2]; size_t k = 0; 
  for (const char *q = norm(p); *q && k < sizeof b - 1; q++) { if (*q == '/' && k && b[k - 1] == '/') continue; b[k++] = *q; }
  b[k] = 0;
  for (int i = 0; i < O.nfiles; i++) if (!strcmp(O.files[i].path, b)) return O.files[i].x;
  return -1;
}
static int path_check(const char *p) { // errno or 0 if executable
  if (!p) return EFAULT;
  if (!*p) return ENOENT;
  if (strlen(p) >= PATH_MAX) return ENAMETOOLONG;
  int x = file_lookup(p);
  return x < 0 ? ENOENT : x == 0 ? EACCES : 0;
}
EXPORT int sim_access(const char *p, int mode) {
  if (LIVE > 1) { cur()->same = 0; point(); } if (p) sys_touch(p, strlen(p) + 1, false);
  if (S.on_access) S.on_access(p);
  int e = path_check(p);
  if (e == EACCES && !(mode & 1)) e = 0;
  if (e) { cur()->err = e; RET(-1); }
  mixh(0); return 0;
}
EXPORT int sim_eaccess(const char *p, int mode) { return sim_access(p, mode); }
EXPORT int sim_euidaccess(const char *p, int mode) { return sim_access(p, mode); }
EXPORT int sim_faccessat(int, const char *p, int mode, int) { return sim_access(p, mode); }
const char *sim_find_getenv(const char *n) { size_t l = strlen(n); for (char **e = O.envp; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1; return nullptr; }
EXPORT char *sim_getenv(const char *n) { return (char *)sim_find_getenv(n); }
EXPORT char *sim_secure_getenv(const char *n) { return (char *)sim_find_getenv(n); }
EXPORT size_t sim_confstr(int, char *buf, size_t len) { const char *d = "/bin:/usr/bin"; if (buf && len) { strncpy(buf, d, len); buf[len - 1] = 0; } return strlen(d) + 1; }
char **sim_environ_real;
extern "C" { __attribute__((visibility("default"))) char **sim_environ; }

// what the system's exec would do: 0 or errno
int sys_exec_result(const char *file, bool search) {
  if (!file) return EFAULT;
  if (!*file) return ENOENT;
  if (!search || strchr(file, '/')) { int e = path_check(file); if (!e && file_lookup(file) == 2) e = EACCES; return e; }
  if (strlen(file) > 255) return ENAMETOOLONG;
  const char *path = sim_find_getenv("PATH"); if (!path) path = "/bin:/usr/bin";
  bool acc = false;
  for (const char *p = path;; ) {
    size_t l = strcspn(p, ":");
    if (l < PATH_MAX) {
      static char b[PATH_MAX + 300]; memcpy(b, p, l); size_t k = l; if (l) b[k++] = '/'; strcpy(b + k, file);
      int e = path_check(b); if (!e && file_lookup(b) == 2) e = EACCES;
      if (!e) return 0;
      if (e == EACCES) acc = true;
    }
    if (!p[l]) break;
    p += l + 1;
  }
  return acc ? EACCES : ENOENT;
}
static int do_exec(const char *path, char *const argv[], char *const envp[], bool search, int which) {
  point();
  if (argv) for (int k = 0; sys_touch(&argv[k], sizeof *argv, false), argv[k]; k++) {}
  if (envp) for (int k = 0; sys_touch(&envp[k], sizeof *envp, false), envp[k]; k++) {}
  int e = sys_exec_result(path, search);
  if (!e && O.exec_result == 1) e = ENOMEM;
  if (!e && O.exec_result == 2 && pick(2)) e = ENOMEM;
  ev(E_SYS_EXEC, which, !e);
  if (S.on_exec) S.on_exec(which, path, argv, envp, e);
  if (e) { cur()->err = e; RET(-1); }
  process_end(END_EXEC, 0);
}
EXPORT int sim_execve(const char *p, char *const a[], char *const e[]) { return do_exec(p, a, e, false, 0); }
EXPORT int sim_execv(const char *p, char *const a[]) { return do_exec(p, a, sim_environ, false, 1); }
EXPORT int sim_execvp(const char *p, char *const a[]) { return do_exec(p, a, sim_environ, true, 2); }
EXPORT int sim_execvpe(const char *p, char *const a[], char *const e[]) { return do_exec(p, a, e, true, 3); }
EXPORT int sim_system(const char *c) { point(); ev(E_SYS_SYSTEM, c != nullptr); if (S.on_system) return S.on_system(c); return 0; }
EXPORT void *sim_dlopen(const char *p, int f) { ev(E_SYS_DLOPEN, (long)p, f); if (S.on_dlopen) return S.on_dlopen(p, f); return nullptr; }
EXPORT int sim_dlclose(void *h) { ev(E_SYS_DLCLOSE, (long)h); if (S.on_dlclose) return S.on_dlclose(h); return 0; }
EXPORT char *sim_dlerror() { const char *e = W.dlerr[W.cur]; W.dlerr[W.cur] = nullptr; return (char *)e; }
EXPORT void *sim_dlsym(void *h, const char *name) {
  (void)h;
  char b[128]; snprintf(b, sizeof b, "sim_%s", name);
  static void *self; if (!self) self = dlopen(nullptr, RTLD_NOW);
  void *p = dlsym(self, b);
  W.dlerr[W.cur] = p ? nullptr : "undefined symbol";
  return p;
}
EXPORT void *sim_dlvsym(void *h, const char *name, const char *) { return sim_dlsym(h, name); }
EXPORT int sim_dladdr(const void *, Dl_info *i) { memset(i, 0, sizeof *i); return 1; }
EXPORT int sim_dl_iterate_phdr(void *, void *) { return 0; }

// ---------------------------------------------------------------- odds and ends
static char *ARENA; static size_t ARENA_POS; enum { ARENA_SZ = 8 << 20 };
static void NBLK_reset();
void *mon_alloc_reset() { if (ARENA) { memset(ARENA, 0, ARENA_POS); } ARENA_POS = 0; NBLK_reset(); return ARENA; }
static void *arena(size_t n) {
  if (ARENA_POS + n + 64 > ARENA_SZ) { fprintf(stderr, "monsim: arena full\n"); exit(3); }
  void *p = ARENA + ARENA_POS; ARENA_POS += (n + 63) & ~63ull; return p;
}
// blocks have red zones on both sides, which are looked at when the execution is over
static struct { char *p; size_t n; } BLK[4096]; static int NBLK; enum { RZ = 64 };
static void *block(size_t n) {
  char *p = (char *)arena(n + 2 * RZ); memset(p, 0xbd, n + 2 * RZ); p += RZ; memset(p, 0xa5, n);
  if (NBLK < 4096) { BLK[NBLK].p = p; BLK[NBLK].n = n; NBLK++; }
  return p;
}
static void NBLK_reset() { NBLK = 0; }
static size_t block_size(void *p) { for (int i = 0; i < NBLK; i++) if (BLK[i].p == p) return BLK[i].n; return 0; }
void heap_check() {
  for (char *z : REDZONES) for (int k = 0; k < 64; k++) if (z[k]) { fail("CRASH", "memory beyond a static array was written"); return; }
  for (int i = 0; i < NBLK; i++) for (int k = 0; k < RZ; k++)
    if ((uint8_t)BLK[i].p[-1 - k] != 0xbd || (uint8_t)BLK[i].p[BLK[i].n + k] != 0xbd) { fail("CRASH", "memory beyond an allocated block of %zu bytes was written", BLK[i].n); return; }
}
EXPORT void *sim_malloc(size_t n) { if (O.malloc_fault && pick(2)) { cur()->err = ENOMEM; return nullptr; } return block(n); }
EXPORT void *sim_calloc(size_t n, size_t m) { void *p = block(n * m); memset(p, 0, n * m); return p; }
EXPORT void *sim_realloc(void *o, size_t n) { void *p = block(n); if (o) { size_t k = block_size(o); memcpy(p, o, k < n ? k : n); } return p; }
EXPORT void sim_free(void *) {}
EXPORT char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)block(n); memcpy(p, s, n); return p; }
EXPORT void *sim_mmap(void *, size_t n, int, int, int, off_t) {   // whole pages, red zones around them
  size_t m = (n + 4095) & ~4095ull; char *p = (char *)arena(m + 4096 + 2 * RZ), *q = (char *)(((u64)p + RZ + 4095) & ~4095ull);
  memset(q - RZ, 0xbd, m + 2 * RZ); memset(q, 0, m);
  if (NBLK < 4096) { BLK[NBLK].p = q; BLK[NBLK].n = m; NBLK++; }
  return q;
}
EXPORT int sim_munmap(void *, size_t) { return 0; }
EXPORT long sim_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_ARG_MAX ? 2097152 : -1; }
EXPORT int sim_getcontext(ucontext_t *) { return 0; }
EXPORT int *sim___errno_location() { return &cur()->err; }
EXPORT int sim___libc_current_sigrtmin() { return 34; }
EXPORT int sim___libc_current_sigrtmax() { return 64; }
static void message(const char *b) {
  cur()->err = EBADF;   // standard error may be closed
  cur()->same = 0;      // writing a message is no spinning
  if (VERBOSE) printf("    | %s%s", b, b[0] && b[strlen(b) - 1] == '\n' ? "" : "\n");
  if (!strncmp(b, "monitor warning", 15)) { u64 h = 0; const char *p = strchr(b, ']'); for (p = p ? p : b; *p && *p != '('; p++) h = h * 31 + (unsigned char)*p; ev(E_WARN, strstr(b, "timeout exceeded") ? 1 : strstr(b, "bad magic") ? 2 : strstr(b, "tn should not") ? 3 : 0, (long)(h & 0xffff)); 
    if (strstr(b, "bad magic") && !S.warn_ok) fail("CRASH", "libmonitor reports an internal error: %s", b); }
}
EXPORT int sim_fprintf(void *, const char *fmt, ...) { char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); message(b); return n; }
EXPORT int sim_vfprintf(void *, const char *fmt, va_list ap) { char b[8192]; int n = vsnprintf(b, sizeof b, fmt, ap); message(b); return n; }
EXPORT int sim_printf(const char *fmt, ...) { char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); message(b); return n; }
EXPORT int sim_fputs(const char *s, void *) { message(s); return 1; }
EXPORT int sim_puts(const char *s) { message(s); return 1; }
EXPORT int sim_fputc(int c, void *) { return c; }
EXPORT int sim_putc(int c, void *) { return c; }
EXPORT int sim_putchar(int c) { return c; }
EXPORT size_t sim_fwrite(const void *, size_t, size_t n, void *) { return n; }
EXPORT int sim_dprintf(int, const char *fmt, ...) { char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); message(b); return n; }
EXPORT int sim_vdprintf(int, const char *fmt, va_list ap) { char b[8192]; int n = vsnprintf(b, sizeof b, fmt, ap); message(b); return n; }
EXPORT void sim_perror(const char *s) { message(s ? s : ""); }
EXPORT void sim_warnx(const char *fmt, ...) { char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); message(b); }
EXPORT void sim_warn(const char *fmt, ...) { char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); message(b); }
EXPORT int sim_fflush(void *) { return 0; }
EXPORT ssize_t sim_write(int, const void *p, size_t n) { (void)p; return n; }

EXPORT int sim___libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void *) {
  if (rtld_fini) sim_atexit(rtld_fini);
  if (fini) sim_atexit(fini);
  if (init) init();
  int r = m(argc, argv, O.envp);
  sys_exit(r);
}
static int (*APPMAIN)(int, char **, char **);
EXPORT int sim_main(int argc, char **argv, char **envp) { return APPMAIN(argc, argv, envp); }

void start_process(int (*appmain)(int, char **, char **), int argc, char **argv, char **envp) {
  APPMAIN = appmain;
  if (O.dynamic) {
    // the library's destructor is registered by the dynamic linker when its constructors have run
    if (O.preload_ctor) run_lib_ctors();
    char mark;
    A.libc_start_main(sim_main, argc, argv, S.app_init, nullptr, run_lib_dtors, &mark);
  } else {
    if (S.app_init) S.app_init();
    int r = A.wrap_main(argc, argv, envp);
    sys_exit(r);
  }
}
static void *main_start(void *) { BOOT_MAIN(0, nullptr, nullptr); abort(); }
void boot_main_thread() {
  if (!STACKS) {
    STACKS = (char *)mmap(nullptr, (size_t)MAXTHR * (STK + 4096) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i <= MAXTHR; i++) mprotect(STACKS + (size_t)i * (STK + 4096), 4096, PROT_NONE);
    ARENA = (char *)mmap(nullptr, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
}
void reset_world() {
  boot_main_thread();
  memset(&W, 0, sizeof W); memset(&O, 0, sizeof O); memset(&H, 0, sizeof H); memset(&S, 0, sizeof S);
  NLOG = 0; LOGHASH = 0; LIVE = 0; FAILED = PRUNED = false;
  W.pid = 1000; W.ppid = 999;
  O.max_steps = 20000; O.horizon = 400ull * 1000000; O.early_wake = true; O.preload_ctor = true;
  Thr *t = new_thr(); t->is_main = true; t->ptid = alloc_ptid(); t->detached = false; t->start = main_start; t->creator = -1;
  W.cur = 0;
  mon_alloc_reset();
}
// part of the fingerprint that comes from the simulated system
u64 world_hash() {
  u64 h = LOGHASH;
  h = mix(h, W.cur); h = mix(h, W.now); h = mix(h, W.pid);
  for (int i = 0; i < W.nthr; i++) {
    Thr *t = &W.thr[i];
    if (t->st == T_GONE) { h = mix(h, 0x6060 + i); continue; }
    h = mix(h, t->hist); h = mix(h, t->mask); h = mix(h, (t->st << 8) | t->bk | (t->yielding << 16) | (t->cancel_pending << 17) | ((u64)t->cancel_async << 31) | (t->cancel_state << 18) | (t->exiting << 19) | ((u64)t->depth << 20) | ((u64)t->detached << 30) | ((u64)t->same << 32));
    h = mix(h, t->wake); h = mix(h, t->ptid); h = mix(h, t->barg); h = mix(h, t->bset);
    for (int j = 0; j < t->pend.n; j++) h = mix(h, t->pend.q[j].sig * 7 + t->pend.q[j].si.si_value.sival_int);
    for (int k = 0; k < MAXKEY; k++) if (t->tsd[k]) h = mix(h, k * 3 + (u64)t->tsd[k]);
  }
  for (int j = 0; j < W.pend.n; j++) h = mix(h, W.pend.q[j].sig * 11);
  for (int s = 1; s < NSIGS; s++) h = mix(h, (u64)W.act[s].sa_handler ^ ((u64)W.act[s].sa_flags << 32) ^ *(u64 *)&W.act[s].sa_mask);
  for (int i = 0; i < 64; i++) if (W.sv[i]) h = mix(h, i * 1000003 + W.sv[i]);
  for (int i = 0; i < W.nfree; i++) h = mix(h, W.free_ptid[i]);
  return h;
}
