// MPI (C17, C18) and dlopen (C19): all call trees within a bound, against a reference that follows the calls step by step.
#include "app.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

// ---------------------------------------------------------------- the library's MPI functions
static const char *fname[5] = {"Init", "Init_thread", "Finalize", "Comm_size", "Comm_rank"};
static const char *flow[5] = {"init", "init_thread", "finalize", "comm_size", "comm_rank"};
static const char *mpi_name(int fn, int bind, int p) {
  static char b[8][48]; static int k; char *s = b[k++ & 7]; static const char *u[] = {"", "", "_", "__"};
  if (bind == 0) snprintf(s, 48, "%sMPI_%s", p ? "P" : "", fname[fn]); else snprintf(s, 48, "%smpi_%s%s", p ? "p" : "", flow[fn], u[bind]);
  return s;
}
static void *entry(int fn, int bind, int p) { char n[64]; snprintf(n, 64, "mon_%s", mpi_name(fn, bind, p)); return libsym(n); }
static int NBIND() { return O.dynamic ? 8 : 4; }   // the static library has no PMPI names

// one call in progress: the arguments and how far it has come
enum { ST_CALLED, ST_PRE, ST_REAL, ST_POST };
struct Call { int fn, bind, p, st, outer; void *a[4]; int ret; };
#define MAXD 12
static Call STK_[MAXTHR][MAXD]; static int SP_[MAXTHR];
#define TOP STK_[W.cur][SP_[W.cur] - 1]
static int IDEPTH, FDEPTH, BUDGET, NMAXD;
static int MAINARGC; static char **MAINARGV;
static bool FEW;            // only some bindings
static bool RANKS;          // rank queries are part of the call trees
// C18 reference
static int RSIZE, RRANK, RFIRST, SETFIRST, INITS;
struct Comm { int size, rank; };
static Comm comms[3] = {{4, 1}, {7, 3}, {1, 0}};
static int *CARGC; static char ***CARGV; static int CA; static char **CV;

static void check_rank(const char *where) {
  int s = A.comm_size(), r = A.comm_rank();
  CHECK("C18", s == RSIZE && r == RRANK, "%s: monitor_mpi_comm_size gives %d and monitor_mpi_comm_rank %d, they should be %d and %d", where, s, r, RSIZE, RRANK);
}
static void nested(int fn);
static int call(int fn, int bind, int p, int comm = 0) {
  void *f = entry(fn, bind, p);
  CHECK("C17", f != nullptr, "the library does not override %s", mpi_name(fn, bind, p));
  int t = W.cur; Call *c = &STK_[t][SP_[t]++]; memset(c, 0, sizeof *c); c->fn = fn; c->bind = bind; c->p = p; c->st = ST_CALLED;
  int depth = SP_[t];
  if (fn <= MPI_INIT_THREAD) c->outer = ++IDEPTH == 1; else if (fn == MPI_FINALIZE) c->outer = ++FDEPTH == 1;
  int prov = 0, ierr = 0, req = 0; int frank = -77, fcomm = comm + 10; void *ccomm = (void *)(0x7000L + comm); int ret = 0;
  int *pie = SP_[t] % 2 ? &ierr : &req, *ppr = &prov; int preq = 2 + depth; c->ret = 40 + depth;
  ev(E_APP_OP, OP_MISC, 1000 + fn * 100 + bind * 10 + p, comm);
  switch (fn) {
  case MPI_INIT: if (bind == 0) { c->a[0] = CARGC; c->a[1] = CARGV; ret = ((int (*)(void *, void *))f)(CARGC, CARGV); } else { c->a[0] = pie; ((void (*)(void *))f)(pie); } break;
  case MPI_INIT_THREAD: if (bind == 0) { c->a[0] = CARGC; c->a[1] = CARGV; c->a[2] = (void *)(long)preq; c->a[3] = ppr; ret = ((int (*)(void *, void *, int, void *))f)(CARGC, CARGV, preq, ppr); }
    else { c->a[0] = &preq; c->a[1] = ppr; c->a[2] = pie; ((void (*)(void *, void *, void *))f)(&preq, ppr, pie); } break;
  case MPI_FINALIZE: if (bind == 0) ret = ((int (*)())f)(); else { c->a[0] = pie; ((void (*)(void *))f)(pie); } break;
  case MPI_COMM_RANK: if (bind == 0) { c->a[0] = ccomm; c->a[1] = &frank; ret = ((int (*)(void *, int *))f)(ccomm, &frank); } else { c->a[0] = &fcomm; c->a[1] = &frank; c->a[2] = pie; ((void (*)(void *, void *, void *))f)(&fcomm, &frank, pie); } break;
  }
  const char *nm = mpi_name(fn, bind, p); const char *pr = fn == MPI_COMM_RANK ? "C18" : "C17";
  CHECK(pr, SP_[t] == depth, "%s: calls do not nest", nm);
  if (fn == MPI_COMM_RANK) {
    CHECK("C18", c->st >= ST_REAL, "%s did not call the MPI library's function", nm);
    CHECK("C18", frank == comms[comm].rank, "%s gives the application rank %d, the communicator's is %d", nm, frank, comms[comm].rank);
  } else CHECK("C17", c->st == (c->outer ? ST_POST : ST_REAL), "%s returned %s", nm, c->st < ST_REAL ? "without calling the MPI library's function" : "without the callback after it");
  if (bind == 0) CHECK(pr, ret == c->ret, "%s returned %d, the MPI library's returned %d", nm, ret, c->ret);
  else CHECK(pr, *pie == 500 + depth + fn, "%s: the error argument is %d, the MPI library's function set %d", nm, *pie, 500 + depth + fn);
  SP_[t]--;
  if (fn <= MPI_INIT_THREAD) { IDEPTH--; INITS = 1; } else if (fn == MPI_FINALIZE) FDEPTH--;
  if (fn == MPI_COMM_RANK) { if (RFIRST && INITS && IDEPTH == 0) { RFIRST = 0; if (SETFIRST) { SETFIRST = 0; RSIZE = comms[comm].size; RRANK = comms[comm].rank; } } }
  if (RANKS) check_rank(nm);
  return 0;
}
// the MPI library's own functions
static long real_mpi(int fn, int bind, int p, void *a0, void *a1, void *a2, void *a3) {
  int t = W.cur; void *a[4] = {a0, a1, a2, a3}; const char *nm = mpi_name(fn, bind, p);
  CHECK(fn >= MPI_COMM_SIZE ? "C18" : "C17", SP_[t] > 0, "%s is called without a call of the application", nm);
  Call *c = &TOP; int depth = SP_[t];
  ev(E_SYS_MPI, fn, bind, p); app_point();
  if (fn == MPI_COMM_SIZE) {
    CHECK("C18", c->fn == MPI_COMM_RANK, "%s is called in %s", nm, mpi_name(c->fn, c->bind, c->p));
    int k = bind ? *(int *)a0 - 10 : (int)((long)a0 - 0x7000);
    CHECK("C18", k >= 0 && k < 3, "%s gets a bad communicator in %s", nm, mpi_name(c->fn, c->bind, c->p));
    *(int *)a1 = comms[k].size; if (bind) *(int *)a2 = 9; return 0;
  }
  const char *pr = fn == MPI_COMM_RANK ? "C18" : "C17";
  CHECK(pr, c->fn == fn && c->bind == bind && c->p == p, "%s calls %s of the MPI library", mpi_name(c->fn, c->bind, c->p), nm);
  CHECK(pr, c->st < ST_REAL, "%s calls the MPI library's function twice", nm);
  int na = fn == MPI_INIT ? (bind ? 1 : 2) : fn == MPI_INIT_THREAD ? (bind ? 3 : 4) : fn == MPI_FINALIZE ? (bind ? 1 : 0) : (bind ? 3 : 2);
  for (int i = 0; i < na; i++) CHECK(pr, a[i] == c->a[i], "%s: argument %d is %p, the caller passed %p", nm, i + 1, a[i], c->a[i]);
  if (fn != MPI_COMM_RANK) CHECK("C17", c->st == (c->outer ? ST_PRE : ST_CALLED), "%s: the MPI library's function is called %s", nm, c->outer ? "before the callback" : "after a callback in a nested call");
  c->st = ST_REAL;
  nested(fn);
  c = &STK_[t][depth - 1];
  if (fn == MPI_COMM_RANK) { int k = bind ? *(int *)a0 - 10 : (int)((long)a0 - 0x7000); *(int *)a1 = comms[k].rank; }
  if (fn == MPI_INIT_THREAD) *(int *)(bind ? a1 : a3) = 1;
  if (bind) *(int *)a[na - 1] = 500 + depth + fn;
  return bind ? 0 : c->ret;
}
static int pick_bind(int *p) { static const int few[] = {0, 2, 5}; int k = FEW ? few[pick(O.dynamic ? 3 : 2)] : pick(NBIND()); *p = k >> 2; return k & 3; }
// what the MPI library's implementation calls
static void nested(int fn) {
  while (BUDGET > 0 && SP_[W.cur] < NMAXD && IDEPTH + FDEPTH < 4) {
    int opt = 0, b, p;
    if (fn <= MPI_INIT_THREAD) { opt = pick(RANKS ? 4 : 3); if (!opt) return; BUDGET--; b = pick_bind(&p); call(opt == 3 ? MPI_COMM_RANK : opt - 1, b, p, opt == 3 ? 1 : 0); }
    else if (fn == MPI_FINALIZE) { opt = pick(RANKS ? 3 : 2); if (!opt) return; BUDGET--; b = pick_bind(&p); call(opt == 2 ? MPI_COMM_RANK : MPI_FINALIZE, b, p, opt == 2 ? 2 : 0); }
    else { if (!pick(2)) return; BUDGET--; int k = STK_[W.cur][SP_[W.cur] - 1].bind ? *(int *)TOP.a[0] - 10 : (int)((long)TOP.a[0] - 0x7000); b = pick_bind(&p); call(MPI_COMM_RANK, b, p, k); }
  }
}
// callbacks
static void cb_mpi(int cb, long a, long b) {
  int t = W.cur; CHECK("C17", SP_[t] > 0, "%s outside an MPI call", evname(cb));
  Call *c = &TOP; const char *nm = mpi_name(c->fn, c->bind, c->p); bool init = cb == CB_mpi_pre_init || cb == CB_init_mpi, post = cb == CB_init_mpi || cb == CB_mpi_post_fini;
  CHECK("C17", init ? c->fn <= MPI_INIT_THREAD : c->fn == MPI_FINALIZE, "%s in %s", evname(cb), nm);
  CHECK("C17", c->outer, "%s in a nested %s", evname(cb), nm);
  CHECK("C17", c->st == (post ? ST_REAL : ST_CALLED), "%s: %s comes at the wrong time or twice", nm, evname(cb));
  c->st = post ? ST_POST : ST_PRE;
  if (cb == CB_init_mpi) {
    if (c->bind == 0) CHECK("C17", (void *)a == c->a[0] && (void *)b == c->a[1], "%s: monitor_init_mpi got %p %p, the application passed %p %p", nm, (void *)a, (void *)b, c->a[0], c->a[1]);
    else CHECK("C17", a && b && *(int *)a == MAINARGC && *(char ***)b == MAINARGV, "%s: monitor_init_mpi did not get the application's argument list", nm);
  }
  if (RANKS && BUDGET > 0 && pick(2)) { BUDGET--; int p, k = pick_bind(&p); call(MPI_COMM_RANK, k, p, 2); }
}
static void hooks() {
  app_setup(); AP.no_thread_checks = true; memset(SP_, 0, sizeof SP_); IDEPTH = FDEPTH = 0; RSIZE = RRANK = -1; RFIRST = SETFIRST = 1; INITS = 0; NMAXD = 6;
  S.on_mpi = real_mpi; FEW = false; MAINARGC = -5; MAINARGV = nullptr; RANKS = false;
  H.in[CB_mpi_pre_init] = [](long a, long b) { cb_mpi(CB_mpi_pre_init, a, b); }; H.in[CB_init_mpi] = [](long a, long b) { cb_mpi(CB_init_mpi, a, b); };
  H.in[CB_fini_mpi] = [](long a, long b) { cb_mpi(CB_fini_mpi, a, b); }; H.in[CB_mpi_post_fini] = [](long a, long b) { cb_mpi(CB_mpi_post_fini, a, b); };
}
static void set_args(int argc, char **argv) { MAINARGC = argc; MAINARGV = argv; CA = argc; CV = argv; int k = pick(2); CARGC = k ? nullptr : &CA; CARGV = k ? nullptr : &CV; }
// call trees: init and finalize, nested in every way
static int tree_main(int argc, char **argv, char **) {
  set_args(argc, argv); int p, b, f = pick(3);
  b = pick_bind(&p); call(f, b, p);
  BUDGET = PARAM ? 1 : 0;
  call(pick(2) ? MPI_FINALIZE : MPI_INIT, 0, 0);
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3;
}
static void s_tree() { hooks(); BUDGET = PARAM ? PARAM : 2; }
SCENARIO(mpi_tree, s_tree, tree_main, check_all, "MPI init and finalize in every binding, whose implementation calls every other binding in every nesting within a budget (param) of calls, then a second call")
// histories of MPI calls, binding by binding, with rank queries anywhere
static int hist_main(int argc, char **argv, char **) {
  set_args(argc, argv); RANKS = FEW = true; check_rank("start of main");
  int n = PARAM ? PARAM : 3; bool any = false;
  for (int i = 0; i < n; i++) {
    BUDGET = 1;
    int op = pick(7), p = 0, b = 0; if (!op) break;
    auto pb = [&] { b = pick_bind(&p); };
    switch (op) {
    case 1: pb(); call(MPI_INIT, b, p); break;
    case 2: b = 1; call(MPI_INIT_THREAD, b, p); break;
    case 3: pb(); call(MPI_FINALIZE, b, p); break;
    case 4: pb(); call(MPI_COMM_RANK, b, p, 0); break;
    case 5: pb(); call(MPI_COMM_RANK, b, p, 1); break;
    case 6: { static const int sr[3][2] = {{12, 11}, {3, 5}, {0, -2}}; int k6 = any ? 0 : pick(3), s = any ? 99 : sr[k6][0], r = any ? 98 : sr[k6][1]; any = true; ev(E_APP_OP, OP_MISC, 3000); A.set_size_rank(s, r); if (SETFIRST) { SETFIRST = 0; RSIZE = s; RRANK = r; } break; }
    }
    check_rank("in main");
  }
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3;
}
static void s_hist() { hooks(); BUDGET = 0; }
SCENARIO(mpi_hist, s_hist, hist_main, check_all, "all histories of MPI init, finalize, rank queries on two communicators and monitor_set_size_rank, with nested calls and queries inside init, finalize and callbacks")
// one rank query in every binding
static int rank_main(int argc, char **argv, char **) {
  set_args(argc, argv); RANKS = true; int p, b;
  if (pick(2)) { b = pick_bind(&p); call(MPI_COMM_RANK, b, p, 0); }
  b = pick_bind(&p); BUDGET = 0; call(pick(2), b, p);
  BUDGET = 1; b = pick_bind(&p); call(MPI_COMM_RANK, b, p, pick(3)); BUDGET = 0;
  b = pick_bind(&p); call(MPI_COMM_RANK, b, p, 2);
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3;
}
static void s_rank() { hooks(); BUDGET = 0; }
SCENARIO(mpi_rank, s_rank, rank_main, check_all, "the first rank queries before and after init, in every pair of bindings")
// threads query at once
static void *race_body(Spec *s) { call(MPI_COMM_RANK, s->x & 3, s->x >> 2, s->y); ev(E_APP_RES, 50, A.comm_size(), A.comm_rank()); return nullptr; }
static int RB[2];
static int race_main(int argc, char **argv, char **) {
  set_args(argc, argv); call(MPI_INIT, 0, 0); RANKS = false;
  int k = app_create(K_CUSTOM, 0, race_body, nullptr, RB[0]);
  RFIRST = 0; call(MPI_COMM_RANK, RB[1] & 3, RB[1] >> 2, 1); ev(E_APP_RES, 50, A.comm_size(), A.comm_rank());
  if (k >= 0) app_join(k, nullptr);
  ev(E_APP_RES, 50, A.comm_size(), A.comm_rank());
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3;
}
static void race_finish() {
  check_all(); int last = -1;
  for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_APP_RES && LOG[i].a == 50) last = i;
  if (last < 0) return;
  CHECK("C18", (LOG[last].b == 4 && LOG[last].c == 1) || (LOG[last].b == 7 && LOG[last].c == 3), "after MPI_Comm_rank in two threads, size and rank are %ld and %ld: not of one communicator", LOG[last].b, LOG[last].c);
  for (int i = 0; i < NLOG; i++) if (LOG[i].type == E_APP_RES && LOG[i].a == 50)
    CHECK("C18", (LOG[i].b == -1 || LOG[i].b == LOG[last].b) && (LOG[i].c == -1 || LOG[i].c == LOG[last].c), "size and rank change from %ld and %ld to %ld and %ld", LOG[i].b, LOG[i].c, LOG[last].b, LOG[last].c);
}
static void s_race() { hooks(); BUDGET = 0; RB[0] = pick(2) * 2; RB[1] = pick(2) * 2; }
SCENARIO(mpi_race, s_race, race_main, race_finish, "two threads make the first rank query at once, on different communicators")

// ---------------------------------------------------------------- dlopen
struct Dl { int open; const char *path; int flags; void *h; int st; int ret; int seq; };
static Dl DS[MAXTHR][MAXD]; static int DP[MAXTHR]; static int DBUD, NH, DFIX, DSEQ[MAXTHR];
#define DTOP DS[W.cur][DP[W.cur] - 1]
static char hobj[64]; static const char DLFAIL[] = "cannot open or close the object";
static void dl_nested();
static void dl_call(int open, const char *path, int flags, void *h) {
  int t = W.cur; Dl *d = &DS[t][DP[t]++]; *d = {open, path, flags, h, 0, 0, -1}; int depth = DP[t];
  if (open) {
    void *r = A.dlopen(path, flags);
    CHECK("C19", d->st == 3, "dlopen returned after step %d of 3", d->st);
    CHECK("C19", r == d->h, "dlopen returned %p, the system's returned %p", r, d->h);
  } else {
    int r = A.dlclose(h);
    CHECK("C19", d->st == 3, "dlclose returned after step %d of 3", d->st);
    CHECK("C19", r == d->ret, "dlclose returned %d, the system's returned %d", r, d->ret);
  }
  CHECK("C19", DP[t] == depth, "dlopen calls do not nest"); DP[t]--;
  // the last of the system's calls in this thread was this one: dlerror describes its failure
  if (DSEQ[t] == d->seq && (open ? !d->h : d->ret != 0))
    CHECK("C19", W.dlerr[t] == DLFAIL, "after %s failed in the system, the application's dlerror gives %s", open ? "dlopen" : "dlclose", W.dlerr[t] ? W.dlerr[t] : "NULL");
}
static void dl_one() {
  int k = pick(9);
  static const char *pa[] = {nullptr, "", "liba.so"}; static const int fl[] = {1, 0x102};
  if (k < 6) dl_call(1, pa[k % 3], fl[k / 3], nullptr); else dl_call(0, nullptr, 0, k == 6 ? nullptr : k == 7 ? (void *)&hobj[1] : (void *)-1L);
}
static void dl_nested() { while (DBUD > 0 && DP[W.cur] < 5 && pick(2)) { DBUD--; dl_one(); } }
static void dl_step(int open, int from, const char *what) {
  CHECK("C19", DP[W.cur] > 0, "%s without a call of the application", what);
  Dl *d = &DTOP; CHECK("C19", d->open == open, "%s in %s", what, d->open ? "dlopen" : "dlclose");
  CHECK("C19", d->st == from, "%s is step %d of 3", what, d->st + 1);
}
static void in_pre(long a, long b) { dl_step(1, 0, "monitor_pre_dlopen"); CHECK("C19", (const char *)a == DTOP.path && b == DTOP.flags, "monitor_pre_dlopen gets %p %ld", (void *)a, b); DTOP.st = 1; dl_nested(); }
static void in_dl(long a, long b) { dl_step(1, 2, "monitor_dlopen"); CHECK("C19", (const char *)a == DTOP.path && b == DTOP.flags && LOG[NLOG - 1].c == (long)DTOP.h, "monitor_dlopen gets %p %ld %#lx", (void *)a, b, LOG[NLOG - 1].c); DTOP.st = 3; dl_nested(); }
static void in_close(long a, long) { dl_step(0, 0, "monitor_dlclose"); CHECK("C19", (void *)a == DTOP.h, "monitor_dlclose gets %p", (void *)a); DTOP.st = 1; dl_nested(); }
static void in_post(long a, long b) { dl_step(0, 2, "monitor_post_dlclose"); CHECK("C19", (void *)a == DTOP.h && b == DTOP.ret, "monitor_post_dlclose gets %p and result %ld, it should be %p and %d", (void *)a, b, DTOP.h, DTOP.ret); DTOP.st = 3; dl_nested(); }
static void *real_dlopen(const char *p, int f) {
  ev(E_SYS_DLOPEN, (long)p, f); dl_step(1, 1, "the system's dlopen"); CHECK("C19", p == DTOP.path && f == DTOP.flags, "the system's dlopen gets %p %d", (void *)p, f); DTOP.st = 2; int depth = DP[W.cur]; app_point(); dl_nested();
  void *h = DFIX ? &hobj[10 + W.cur] : pick(2) ? nullptr : (void *)&hobj[(NH++) & 63]; DS[W.cur][depth - 1].h = h; DS[W.cur][depth - 1].seq = ++DSEQ[W.cur]; W.dlerr[W.cur] = h ? nullptr : DLFAIL; return h;
}
static int real_dlclose(void *h) {
  ev(E_SYS_DLCLOSE, (long)h); dl_step(0, 1, "the system's dlclose"); CHECK("C19", h == DTOP.h, "the system's dlclose gets %p", h); DTOP.st = 2; int depth = DP[W.cur]; app_point(); dl_nested();
  int r = DFIX ? 0 : pick(2) ? -1 : 0; DS[W.cur][depth - 1].ret = r; DS[W.cur][depth - 1].seq = ++DSEQ[W.cur]; W.dlerr[W.cur] = r ? DLFAIL : nullptr; return r;
}
static void dl_setup() {
  app_setup(); AP.no_thread_checks = true; memset(DP, 0, sizeof DP); memset(DSEQ, 0, sizeof DSEQ); NH = DFIX = 0;
  S.on_dlopen = real_dlopen; S.on_dlclose = real_dlclose; H.in[CB_pre_dlopen] = in_pre; H.in[CB_dlopen] = in_dl; H.in[CB_dlclose] = in_close; H.in[CB_post_dlclose] = in_post;
}
static int DEARLY;
static int dl_main(int, char **, char **) { DBUD = PARAM ? PARAM : 2; if (!DEARLY) dl_one(); else DBUD = 0; dl_one(); Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3; }
static void s_dl() { dl_setup(); DEARLY = pick(2); if (DEARLY) { O.preload_ctor = pick(2); S.app_init = [] { DBUD = 1; dl_one(); }; } }
SCENARIO(dl_tree, s_dl, dl_main, check_all, "all trees of nested dlopen and dlclose calls within a budget (param), failing or not, from constructors, callbacks and before main")
static void *dl_body(Spec *) { DBUD = 0; dl_call(1, "libb.so", 2, nullptr); dl_call(0, nullptr, 0, &hobj[3]); return nullptr; }
static int dlrace_main(int, char **, char **) {
  DBUD = 0; int k = app_create(K_CUSTOM, 0, dl_body); dl_call(1, "liba.so", 1, nullptr); dl_call(0, nullptr, 0, &hobj[5]); if (k >= 0) app_join(k, nullptr);
  Thr *t = cur(); t->exp_how = 1; t->exp_status = 3; ev(E_APP_OP, OP_EXIT, K_RETURN); return 3;
}
static void s_dlrace() { dl_setup(); DFIX = 1; DBUD = 0; }
SCENARIO(dl_race, s_dlrace, dlrace_main, check_all, "two threads open and close libraries at once")
