// Thread creation: callbacks, ignored threads, attributes, failures, identity and the life of thread records.
#include "app.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <limits.h>
#include <initializer_list>

EXPORT int sim_pthread_key_create(pthread_key_t *, void (*)(void *)); EXPORT int sim_pthread_setspecific(pthread_key_t, const void *);
#define N(a) ((int)(sizeof a / sizeof a[0]))
struct Mti { void *ret, *start; };
static int DEPTH, WHO, POLICY, DETACHED, ENDK, FAULTS;
static int FORCE_FAIL;                 // >0: the system's pthread_create fails
static pthread_attr_t ATTR; static size_t ATTR_SIZE, DEF_SIZE, ATTR_GUARD;
static const pthread_attr_t *OP_ATTR; static bool OP_IGNORE, NESTED, NEST1; static int OP_AT; static bool DISN[MAXTHR];   // the thread has new threads disabled, or is not monitored itself
static pthread_key_t DKEY;
static size_t guard_of(const pthread_attr_t *a) { size_t g = 0; pthread_attr_getguardsize(a, &g); return g; }
static size_t stack_of(const pthread_attr_t *a) { size_t s = 0; if (!a) return DEF_SIZE; pthread_attr_getstacksize(a, &s); return s; }
static int detach_of(const pthread_attr_t *a) { int d = 0; if (!a) return PTHREAD_CREATE_JOINABLE; pthread_attr_getdetachstate(a, &d); return d; }

static size_t larger(size_t n) { return n * 2; }
static size_t smaller(size_t n) { return n / 2; }
static size_t rejected(size_t) { return 1; }
static void *pre_ignore() { return OP_IGNORE ? (void *)-1 : (void *)(0x30000l + NLOG); }
static void want_info(long, long) {
  CHECK("C06", !DISN[W.cur], "T%d, with new threads disabled or not monitored itself, gets a callback for a creation", W.cur);
  Mti m = {nullptr, nullptr}; int r = A.get_new_thread_info(&m);
  CHECK("C06", r == 0, "monitor_get_new_thread_info fails inside pthread_create");
  Spec *s = &AP.spec[AP.pending[W.cur]]; (void)s;
  CHECK("C06", !in_lib_text(m.start) && m.start != nullptr && m.start == (void *)cur()->app_arg, "monitor_get_new_thread_info gives start routine %p, pthread_create was called with %p", m.start, cur()->app_arg);
  CHECK("C06", (char *)m.ret > (char *)app_create && (char *)m.ret < (char *)app_create + 4096, "monitor_get_new_thread_info gives caller %p, which is not where pthread_create was called", m.ret);
}
static void no_info(const char *where) { Mti m; int r = A.get_new_thread_info(&m); CHECK("C06", r != 0, "%s: monitor_get_new_thread_info succeeds outside pthread_create (start %p)", where, r ? nullptr : m.start); }
static void *th_ret(Spec *s) { no_info("thread"); probe("thread"); return (void *)(long)s->status; }
static void in_init(long, long) { no_info("monitor_init_thread"); }
static void in_fini(long, long) { no_info("monitor_fini_thread"); }
static int do_create(const pthread_attr_t *attr, int kind = K_CUSTOM, void *(*fn)(Spec *) = th_ret) {
  OP_ATTR = attr; OP_AT = NLOG;
  int r = app_create(kind, 40 + AP.nspec, fn, attr);
  return r;
}
static void pre_nested(long a, long b) {
  want_info(a, b);
  if (NESTED) {   // the client makes a helper thread of its own
    NESTED = false;
    const pthread_attr_t *sa = OP_ATTR; bool si = OP_IGNORE;  int pend = AP.pending[W.cur];
    int how = NEST1 ? pick(3) : 1; OP_IGNORE = how < 2;   // a thread created while they are disabled, one that the callback ignores, a monitored one
    if (how == 0) A.disable_new_threads(), DISN[W.cur] = true;
    do_create(nullptr);
    if (how == 0) A.enable_new_threads(), DISN[W.cur] = false;
    OP_ATTR = sa; OP_IGNORE = si; OP_AT = NLOG; AP.pending[W.cur] = pend;
    want_info(a, b);
  }
}
static void at_create(Thr *t, const pthread_attr_t *attr, start_fn *start, void *arg) {
  if (t) t->spec = AP.pending[W.cur];
  int rs = -1, rse = -1; for (int i = OP_AT; i < NLOG; i++) if (LOG[i].thr == W.cur) { if (LOG[i].type == CB_reset_stacksize) rs = i; if (LOG[i].type == E_CBEND && LOG[i].a == CB_reset_stacksize) rse = i; }
  size_t orig = OP_ATTR ? ATTR_SIZE : DEF_SIZE, want = orig;
  if (OP_IGNORE) {
    CHECK("C06", rs < 0, "ignored thread: monitor_reset_stacksize was called");
    CHECK("C05", !in_lib_text((void *)start), "ignored thread does not run the application's start routine");
    CHECK("C05", attr == OP_ATTR, "ignored thread: pthread_create got other attributes than the application's");
  } else {
    if (!FAULTS) CHECK("C05", rs >= 0, "monitor_reset_stacksize was not called");
    if (rs >= 0) { CHECK("C05", (size_t)LOG[rs].a == orig, "monitor_reset_stacksize got %ld, the application's size is %zu", LOG[rs].a, orig); if ((size_t)LOG[rse].b >= (size_t)PTHREAD_STACK_MIN) want = LOG[rse].b; }
  }
  CHECK("C05", stack_of(attr) == want, "the thread's stack size is %zu instead of %zu (application's: %zu)", stack_of(attr), want, orig);
  CHECK("C05", detach_of(attr) == detach_of(OP_ATTR), "the thread's detach state is not the application's");
  if (OP_ATTR) CHECK("C05", attr && guard_of(attr) == ATTR_GUARD, "the thread's guard size is not the application's");
}
static void after_op(const char *where) {
  no_info(where); probe(where);
  CHECK("C05", stack_of(&ATTR) == ATTR_SIZE, "%s: the application's attribute object now has stack size %zu instead of %zu", where, stack_of(&ATTR), ATTR_SIZE);
  CHECK("C05", detach_of(&ATTR) == DETACHED && guard_of(&ATTR) == ATTR_GUARD, "%s: the application's attribute object was changed", where);
}
enum { OPC_NULL, OPC_ATTR, OPC_DISABLE, OPC_ENABLE, OPC_IGNORE, OPC_FAIL, OPC_JOIN, OPC_NEST, OPC_N };
static void do_join(int tid) {
  void *ret = nullptr; app_join(tid, &ret);
  long want = AP.spec[W.thr[tid].spec].status;
  CHECK("C05", (long)ret == want, "pthread_join of T%d gives %ld instead of %ld", tid, (long)ret, want);
}
static void ops() {
  int last = -1; bool dis = false;
  for (int i = 0; i < DEPTH; i++) {
    int op = pick(OPC_N); int tid = -1; bool at = false; FORCE_FAIL = 0; OP_IGNORE = DISN[W.cur] = dis || A.get_thread_num() < 0;
    switch (op) {
    case OPC_NULL: tid = do_create(nullptr); break;
    case OPC_ATTR: at = true; tid = do_create(&ATTR); break;
    case OPC_DISABLE: A.disable_new_threads(); dis = true; break;
    case OPC_ENABLE: A.enable_new_threads(); dis = false; break;
    case OPC_IGNORE: OP_IGNORE = true; at = true; tid = do_create(&ATTR); break;
    case OPC_FAIL: O.create_fault = 2; at = true; tid = do_create(&ATTR); O.create_fault = 0; CHECK("C05", cur()->exp_kind == EAGAIN, "a failed pthread_create returned %d", cur()->exp_kind); break;
    case OPC_JOIN: if (last >= 0) { do_join(last); last = -1; } break;
    case OPC_NEST: NESTED = !dis; NEST1 = i == 0; tid = do_create(nullptr); NESTED = false; break;
    }
    if (tid >= 0 && !(at && DETACHED == PTHREAD_CREATE_DETACHED)) last = tid;
    after_op("after an operation");
  }
}
static void *ops_thread(Spec *s) { ops(); return (void *)(long)s->status; }
static int ops_main(int, char **, char **) {
  A.get_new_thread_info(nullptr);
  no_info("before any thread");
  if (WHO == 0) ops();
  else { OP_IGNORE = DISN[0] = WHO == 2; if (WHO == 2) A.disable_new_threads(); int t = do_create(nullptr, K_CUSTOM, ops_thread); if (WHO == 2) A.enable_new_threads(); DISN[0] = false; if (t >= 0) app_join(t, nullptr); }
  if (ENDK) end_op(K_EXIT, 5);
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3;
}
static void setup_ops(int depth) {
  app_setup(); DEPTH = depth; NESTED = OP_IGNORE = false; FAULTS = 0; memset(DISN, 0, sizeof DISN);
  pthread_attr_t d; pthread_attr_init(&d); pthread_attr_getstacksize(&d, &DEF_SIZE);
  pthread_attr_init(&ATTR); ATTR_SIZE = 131072; pthread_attr_setstacksize(&ATTR, ATTR_SIZE); ATTR_GUARD = 8192; pthread_attr_setguardsize(&ATTR, ATTR_GUARD);
  H.pre_create_ret = pre_ignore; S.on_create = at_create;
  H.in[CB_thread_pre_create] = pre_nested; H.in[CB_thread_post_create] = want_info; H.in[CB_reset_stacksize] = want_info; H.in[CB_init_thread_support] = want_info;
  H.in[CB_init_thread] = in_init; H.in[CB_fini_thread] = in_fini;
}
static void set_policy(int p) { POLICY = p; H.stacksize = p == 0 ? nullptr : p == 1 ? larger : p == 2 ? smaller : rejected; if (p == 3) S.warn_ok = true; }
static void set_detach(int d) { DETACHED = d ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE; pthread_attr_setdetachstate(&ATTR, DETACHED); }
static void s_ops() { setup_ops(PARAM ? PARAM : 3); WHO = pick(3); set_policy(pick(4)); set_detach(pick(2)); ENDK = 0; }
SCENARIO(thr_ops, s_ops, ops_main, check_all, "every sequence of creations (plain, attributes, ignored, failing, nested), disable/enable and join")
static void s_ops1() { setup_ops(2); WHO = pick(2); set_policy(pick(2)); set_detach(0); ENDK = 1; }
SCENARIO(thr_ops_race, s_ops1, ops_main, check_all, "two such operations under every schedule, process exit at any time")
static int STK_OP;
static int stack_main(int, char **, char **) {
  for (int i = 0; i < 2; i++) {
    int op = i ? STK_OP : 0;   // with the attributes; then again, or ignored, or failing, or without attributes
    OP_IGNORE = op == 1; O.create_fault = op == 2 ? 2 : 0;
    int t = do_create(op == 3 ? nullptr : &ATTR); O.create_fault = 0;
    if (op == 2) CHECK("C05", cur()->exp_kind == EAGAIN, "a failed pthread_create returned %d", cur()->exp_kind);
    if (t >= 0) do_join(t);
    after_op("after pthread_create with a stack size");
  }
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3;
}
static size_t by_one(size_t n) { return n + 1; }
static size_t huge_size(size_t) { return (size_t)5 << 30; }
static void s_stack() {
  static const size_t z[] = {PTHREAD_STACK_MIN, PTHREAD_STACK_MIN + 1, 20480, 32768, 65535, 65536, 65537, 262144, 1 << 20, 2 << 20, (4 << 20) - 1, 4 << 20, 8 << 20, (8 << 20) + 4096, 16 << 20, 64 << 20, (size_t)1 << 30, (size_t)1 << 31, ((size_t)1 << 32) - 4096, (size_t)1 << 32, ((size_t)1 << 32) + 131072, (size_t)5 << 30};
  setup_ops(0); ATTR_SIZE = z[pick(N(z))]; pthread_attr_setstacksize(&ATTR, ATTR_SIZE); set_detach(0);
  int p = pick(6); if (p == 0) for (auto &h : H.in) h = nullptr;   // may then be the default callbacks
  if (p < 4) set_policy(p); else H.stacksize = p == 4 ? by_one : huge_size;
  STK_OP = pick(4); WHO = 0; ENDK = 0; if (p == 2 && ATTR_SIZE / 2 < (size_t)PTHREAD_STACK_MIN) S.warn_ok = true;
}
SCENARIO(thr_stack, s_stack, stack_main, check_all, "attributes with stack sizes from the smallest to ones that do not fit 32 bits, and clients that change them")
static void s_faults() { setup_ops(2); WHO = 0; set_policy(pick(4)); set_detach(pick(2)); ENDK = 0; FAULTS = 1; O.attr_fault = 3; S.warn_ok = true; }
SCENARIO(thr_faults, s_faults, ops_main, check_all, "attribute calls of the system fail at every place")

// ---------------------------------------------------------------- identity
static void dtor(void *) { probe("key destructor"); ev(E_APP_DTOR); }
static void *th_id(Spec *s) {
  sim_pthread_setspecific(DKEY, s);
  probe("thread begin"); app_point();
  if (s->x == 1) { int k = app_create(K_CUSTOM, s->status + 100, th_id); probe("after creating"); if (k >= 0 && s->y) app_join(k, nullptr); }
  probe("thread end");
  if (s->x == 2) { ev(E_APP_END, cur()->id, 2); A.pthread_exit((void *)(long)s->status); }
  return (void *)(long)s->status;
}
static void cb_probe(long, long) { if (find_ev(0, CB_at_main) >= 0 && cur()->depth == 0) probe("callback"); }
static void (*ID_OLD)(long, long);
static void init_probe(long num, long data) {   // in monitor_init_thread: the queries describe the new thread already
  Thr *t = cur(); long n = A.get_thread_num(), ud = (long)A.get_user_data(); void *sb = A.stack_bottom(), *st = A.get_addr_thread_start();
  CHECK("C04", n == num, "in monitor_init_thread(%ld): monitor_get_thread_num gives %ld", num, n);
  CHECK("C04", ud == 0 || ud == data, "in monitor_init_thread: monitor_get_user_data gives %#lx, the data of T%d is %#lx", ud, t->id, data);
  CHECK("C04", sb && on_stack_of(t, sb), "in monitor_init_thread: monitor_stack_bottom gives %p in T%d, not on its stack", sb, t->id);
  CHECK("C04", st == (void *)start_of(t->spec), "in monitor_init_thread: monitor_get_addr_thread_start gives %p in T%d", st, t->id);
  if (ID_OLD) ID_OLD(num, data);
}
static int NT, NJ, X[4];
static int id_main(int, char **, char **) {
  if (!S.app_init) sim_pthread_key_create(&DKEY, dtor);
  int tid[4];
  for (int i = 0; i < NT; i++) { tid[i] = app_create(K_CUSTOM, 20 + i, th_id, nullptr, X[i]); probe("main"); if (NJ == 1 && tid[i] >= 0) app_join(tid[i], nullptr); }
  for (int i = 0; i < NT && NJ == 2; i++) if (tid[i] >= 0) app_join(tid[i], nullptr);
  probe("main end");
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3;
}
static void s_id() {
  app_setup(); NT = 2; for (int i = 0; i < NT; i++) X[i] = pick(3); NJ = pick(3);
  for (int c : {CB_thread_pre_create, CB_thread_post_create, CB_fini_thread, CB_begin_process_exit, CB_fini_process}) H.in[c] = cb_probe;
  ID_OLD = H.in[CB_init_thread]; H.in[CB_init_thread] = init_probe;
}
SCENARIO(thr_id, s_id, id_main, check_all, "threads create, end and reuse records at the same time; identity queries everywhere, also in key destructors")
static void s_id3() { app_setup(); NT = 3; for (int i = 0; i < NT; i++) X[i] = 0; NJ = pick(3); }
SCENARIO(thr_id3, s_id3, id_main, check_all, "three threads")

// more threads than the first block of records holds: failed creations use records up
static int NFAIL;
static int many_main(int, char **, char **) {
  sim_pthread_key_create(&DKEY, dtor);
  O.create_fault = 2; for (int i = 0; i < NFAIL; i++) { int n = AP.nspec; app_create(K_CUSTOM, 0, th_id); AP.nspec = n; NLOG = NLOG > 2000 ? 2000 : NLOG; } O.create_fault = 0;
  int tid[4]; for (int i = 0; i < 4; i++) { tid[i] = app_create(K_CUSTOM, 20 + i, th_id); probe("main"); }
  for (int i = 0; i < 4; i++) if (tid[i] >= 0) app_join(tid[i], nullptr);
  int t2 = app_create(K_CUSTOM, 30, th_id); if (t2 >= 0) app_join(t2, nullptr);
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3;
}
static void s_many() { static const int n[] = {0, 145, 148, 149, 150, 295, 298, 299, 300, 594, 595, 596, 597, 598, 599, 600, 601, 1195, 1196, 1197, 1198, 1199, 1200}; app_setup(); NFAIL = n[pick(N(n))]; O.max_steps = 200000; }
SCENARIO(thr_many, s_many, many_main, check_all, "creations around the sizes at which thread records are allocated anew")

// ignored threads and process exit
static int IK, IEND, INORM;
static void *ign_body(Spec *s) {
  probe("ignored thread"); DISN[W.cur] = true;
  if (s->x == 1) { int k = app_create(K_CUSTOM, 50, th_ret); if (k >= 0) app_join(k, nullptr); probe("ignored thread"); }
  if (s->x == 2) end_op(K_EXIT, 7);
  if (s->x == 3) app_compute();
  if (s->x == 4) { A.block_shootdown(); A.unblock_shootdown(); A.disable_new_threads(); A.enable_new_threads(); no_info("ignored thread"); A.broadcast_signal(SIGURG); probe("ignored thread"); }
  if (s->x == 5) { ev(E_APP_END, cur()->id, 2); A.pthread_exit((void *)(long)s->status); }
  return (void *)(long)s->status;
}
static int ign_main(int, char **, char **) {
  if (INORM == 1) app_create(K_COMPUTE, 20);
  if (INORM == 2) app_create(K_RETURN, 20);
  A.disable_new_threads(); DISN[W.cur] = true; int t1 = app_create(K_CUSTOM, 30, ign_body, nullptr, IK); A.enable_new_threads(); DISN[W.cur] = false;
  if (INORM == 3) app_create(K_COMPUTE, 20);
  if (IEND == 1 && IK != 2 && IK != 3 && t1 >= 0) { void *r; app_join(t1, &r); CHECK("C05", (long)r == 30, "pthread_join of an ignored thread gives %ld", (long)r); }
  if (IEND == 2) end_op(K_EXIT, 5);
  if (IK == 2) app_compute();
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3;
}
static void s_ign() { app_setup(); memset(DISN, 0, sizeof DISN); for (int c : {CB_init_thread_support, CB_thread_pre_create, CB_reset_stacksize, CB_thread_post_create}) H.in[c] = want_info; IK = pick(6); IEND = pick(3); INORM = pick(4); }
SCENARIO(thr_ignored, s_ign, ign_main, check_all, "ignored threads create threads, use the client interface and end the process")

// threads made before main
static void early_init() { sim_pthread_key_create(&DKEY, dtor); int k = app_create(K_CUSTOM, 60, th_id, nullptr, X[0]); if (NJ == 1 && k >= 0) app_join(k, nullptr); }
static void s_early() { app_setup(); S.app_init = early_init; NT = pick(2); X[0] = pick(3); X[1] = 0; NJ = pick(3); O.preload_ctor = pick(2); }
static int early_main(int c, char **v, char **e) { return id_main(c, v, e); }
SCENARIO(thr_early, s_early, early_main, check_all, "a constructor makes threads before main and before the library's own constructor")

// the client makes threads of its own in its callbacks
static int CW, CM, CDONE;
static void helper(long, long) {
  if (CDONE) return;
  CDONE = 1; int pend = AP.pending[W.cur]; void *arg = cur()->app_arg;
  bool was = DISN[W.cur]; if (CM == 0) A.disable_new_threads(), DISN[W.cur] = true;
  int k = app_create(K_CUSTOM, 70, th_ret);
  if (CM == 0) A.enable_new_threads(), DISN[W.cur] = was;
  if (CM == 2 && k >= 0) app_join(k, nullptr);
  AP.pending[W.cur] = pend; cur()->app_arg = arg;
}
static void helper_info(long a, long b) { want_info(a, b); helper(a, b); want_info(a, b); }
static void s_client() {
  static const int cb[] = {CB_start_main_init, CB_init_library, CB_init_process, CB_at_main, CB_init_thread_support, CB_thread_pre_create, CB_reset_stacksize, CB_thread_post_create, CB_init_thread, CB_fini_thread};
  app_setup(); memset(DISN, 0, sizeof DISN); CDONE = 0; int k = pick(N(cb)); CW = cb[k]; CM = pick(3); if (k < 2 && CM) CM = 0;
  H.in[CB_thread_pre_create] = H.in[CB_thread_post_create] = H.in[CB_reset_stacksize] = H.in[CB_init_thread_support] = want_info;
  H.in[CW] = k >= 4 && k <= 7 ? helper_info : helper; AP.support_creates = CW == CB_init_thread_support;
  NT = 1 + pick(2); X[0] = X[1] = 0; NJ = pick(3); if (pick(2)) { S.app_init = early_init; O.preload_ctor = pick(2); }
}
SCENARIO(thr_client, s_client, id_main, check_all, "the client's callbacks create threads, monitored or ignored, during start-up and inside creations")
