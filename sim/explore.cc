// Exhaustive exploration of choice sequences (stateless, prefix replay, deviation bounded, state caching).
#include "internal.h"
#include "hooks.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <setjmp.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <vector>
#include <string>
#include <algorithm>
#include <regex.h>

static Scenario *SCN; static Scenario *scn_list;
void register_scenario(Scenario *s) { s->next = scn_list; scn_list = s; }

// ---------------------------------------------------------------- shared between workers
enum { MAXDEV = 60, QCAP = 1 << 16, MAXVIO = 8 };
struct Dev { uint16_t idx; uint8_t c, n; };
struct Task { uint16_t ndev; uint16_t start; int16_t cost; uint16_t pad; Dev d[MAXDEV]; };
struct Vio { Task t; char prop[16]; char msg[1024]; int known; };
struct Shared {
  volatile int lock; volatile int stop, capped, diverged, idle; volatile int gen; volatile int harderr;
  int qn;
  u64 execs, pruned, trans, states, outcomes, outhash, fresh; int maxdepth; u64 maxnow; volatile int cachefull;
  int nvio, nvio_new; Vio vio[MAXVIO];
  u64 known_hits[64];
  Task q[QCAP];
};
static Shared *SH; static u64 *VT; static u64 VT_MASK; static u64 *OT; enum { OT_N = 1 << 22 };
static void lock() { while (__sync_lock_test_and_set(&SH->lock, 1)) usleep(50); }
static void unlock() { __sync_lock_release(&SH->lock); }
static void *shmap(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }

// ---------------------------------------------------------------- one execution
static int BOUND = 1; static bool CACHE = true; static bool DYNAMIC = true; static int TIMECAP = 600; static bool DEBUGENV;
static Task *CT; static int POS, CD; static int COST; static std::vector<Task> *OUT;
static u64 SETUPH; static std::vector<Dev> TRACE; static bool RECORD;
static u64 n_states, n_pruned; static bool CACHED_PRUNE;

static bool visit(u64 fp, int budget) { // true if already covered
  fp = (fp | 1) & ~15ull; fp |= 16; u64 h = (fp >> 4) * 0x9e3779b97f4a7c15ull >> 20;
  for (int i = 0; i < 64; i++) {
    u64 *e = &VT[(h + i) & VT_MASK];
    u64 v = __atomic_load_n(e, __ATOMIC_RELAXED);
    if (v == 0) { if (__sync_bool_compare_and_swap(e, 0, fp | (u64)budget)) { n_states++; return false; } v = *e; }
    if ((v & ~15ull) == fp) {
      if ((int)(v & 15) >= budget) return true;
      while (!__sync_bool_compare_and_swap(e, v, fp | (u64)budget)) { v = *e; if ((int)(v & 15) >= budget) return true; }
      return false;
    }
  }
  SH->cachefull = 1;
  return false;
}
int choose(int kind, int n, u64 costmask) {
  int i = POS++;
  if (i > 65000) { fail("HANG", "too many choices in one execution"); return 0; }
  if (n > 250) { fprintf(stderr, "monsim: too many options\n"); exit(3); }
  if (CD < CT->ndev && CT->d[CD].idx == i) {
    Dev d = CT->d[CD++];
    if (d.n != n || d.c >= n) { SH->diverged = 1; SH->stop = 1; fprintf(stderr, "monsim: replay diverged in %s at choice %d: %d options, expected %d\n", SCN->name, i, n, d.n); exit(3); }
    if (RECORD) TRACE.push_back({(uint16_t)i, d.c, (uint8_t)n});
    if (VERBOSE && kind == K_SCHED) printf("  -- choice %d: option %d of %d (thread T%d would go on)\n", i, d.c, n, W.cur);
    if (!RUNNING) SETUPH = SETUPH * 1000003 + d.c * 17 + n;
    return d.c;
  }
  if (RECORD) TRACE.push_back({(uint16_t)i, 0, (uint8_t)n});
  if (!RUNNING) SETUPH = SETUPH * 1000003 + n;
  if (i < CT->start) return 0;
  if (OUT) {
    if (kind == K_SCHED && CACHE && RUNNING) {
      u64 fp = fingerprint() ^ SETUPH * 0x9e3779b97f4a7c15ull;
      if (visit(fp, BOUND - COST)) { CACHED_PRUNE = true; end_execution(); }
    }
    for (int a = n - 1; a >= 1; a--) {
      int c = COST + ((costmask >> a) & 1);
      if (c > BOUND) continue;
      if (CT->ndev >= MAXDEV) { fprintf(stderr, "monsim: too many deviations:"); for (int q = 0; q < CT->ndev; q++) fprintf(stderr, " %d:%d/%d", CT->d[q].idx, CT->d[q].c, CT->d[q].n); fprintf(stderr, "\n"); SH->harderr = 1; exit(3); }
      Task t; memcpy(&t, CT, offsetof(Task, d) + sizeof(Dev) * CT->ndev);
      t.d[t.ndev++] = {(uint16_t)i, (uint8_t)a, (uint8_t)n}; t.start = i + 1; t.cost = c;
      OUT->push_back(t);
    }
  }
  return 0;
}
void end_execution() { RUNNING = false; void *dummy; co_switch(&dummy, EXPL_SP); abort(); }

static std::vector<char> SNAP; static sigjmp_buf CRASHJ; static char CRASHMSG[200]; static volatile bool IN_EXEC; static volatile u64 EXEC_NO, WD_NO;
static void (*lib_ctors)(void), (*lib_dtors)(void);
void run_lib_ctors() { lib_ctors(); }
void run_lib_dtors() { lib_dtors(); }

static bool SUBSETS; void choose_undefined(); void undefined_for_scenario();
static void on_crash(int sig, siginfo_t *si, void *uc) {
  if (!IN_EXEC && sig == SIGALRM) { alarm(20); return; }
  if (!IN_EXEC) { signal(sig, SIG_DFL); raise(sig); return; }
  if (sig == SIGALRM) { if (WD_NO != EXEC_NO) { WD_NO = EXEC_NO; alarm(20); return; } snprintf(CRASHMSG, sizeof CRASHMSG, "endless loop (no progress for 20 s of real time)"); siglongjmp(CRASHJ, 2); }
  u64 pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  bool inlib = (char *)pc >= LIB.text_lo && (char *)pc < LIB.text_hi;
  Dl_info di; const char *nm = "?"; if (dladdr((void *)pc, &di) && di.dli_sname) nm = di.dli_sname;
  snprintf(CRASHMSG, sizeof CRASHMSG, "crash: signal %d in %s%s", sig, inlib ? "libmonitor code, " : "", nm);
  siglongjmp(CRASHJ, 1);
}
static const char *ARGV0[] = {"app", "one", "two", nullptr};
static int boot(int, char **, char **) { start_process(SCN->main, O.argv ? O.argc : 3, O.argv ? O.argv : (char **)ARGV0, O.envp); return 0; }

static void run(Task *t, std::vector<Task> *out) {
  CT = t; POS = 0; CD = 0; COST = t->cost; OUT = out; SETUPH = 0x1234; CACHED_PRUNE = false; TRACE.clear();
  EXEC_NO++;
  IN_EXEC = true;
  int j = sigsetjmp(CRASHJ, 1);
  if (j) { RUNNING = false; alarm(20); if (!FAILED) { FAILED = true; strcpy(FAIL_PROP, j == 2 ? "HANG" : "CRASH"); snprintf(FAIL_MSG, sizeof FAIL_MSG, "%s", CRASHMSG); } IN_EXEC = false; return; }
  memcpy(LIB.lo, SNAP.data(), SNAP.size());
  mem_reset();
  reset_world();
  O.dynamic = DYNAMIC;
  static const char *defenv[] = {"HOME=/root", "PATH=/bin:/usr/bin", nullptr};
  for (int i = 0; defenv[i]; i++) O.env[O.nenv++] = defenv[i];
  if (DEBUGENV) O.env[O.nenv++] = "MONITOR_DEBUG=1";
  O.envp = (char **)O.env;
  if (SUBSETS) choose_undefined();
  if (SCN->setup) SCN->setup();
  if (SUBSETS) undefined_for_scenario();
  sim_environ = O.envp;
  BOOT_MAIN = boot;
  if (!FAILED && !PRUNED) {
    RUNNING = true;
    co_switch(&EXPL_SP, W.thr[0].sp);
    RUNNING = false;
    if (CD < t->ndev && !CACHED_PRUNE && !FAILED) { SH->diverged = 1; fprintf(stderr, "monsim: replay ended early in %s\n", SCN->name); exit(3); }
    if (!FAILED && !PRUNED && !CACHED_PRUNE) { heap_check(); if (!FAILED && SCN->finish) SCN->finish(); }
  }
  IN_EXEC = false;
}

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, scn; regex_t re; std::string text; };
static std::vector<Known> KNOWN;
static void load_known(const char *f) {
  FILE *fp = fopen(f, "r"); if (!fp) return;
  char line[2048];
  while (fgets(line, sizeof line, fp)) {
    line[strcspn(line, "\n")] = 0;
    if (!*line || *line == '#' || !strncmp(line, "fixed:", 6)) continue;
    char *a = strtok(line, "\t"), *b = strtok(nullptr, "\t"), *c = strtok(nullptr, "\t"), *d = strtok(nullptr, "\t");
    if (!a || !b || !c) continue;
    Known k; k.prop = a; k.scn = b; k.text = d ? d : c;
    if (regcomp(&k.re, c, REG_EXTENDED | REG_NOSUB)) continue;
    KNOWN.push_back(k);
  }
  fclose(fp);
}
static int known_match() {
  for (size_t i = 0; i < KNOWN.size(); i++) if ((!ONLY || strstr(ONLY, KNOWN[i].prop.c_str())) && (KNOWN[i].scn == "*" || KNOWN[i].scn == SCN->name) && regexec(&KNOWN[i].re, FAIL_MSG, 0, nullptr, 0) == 0) return i;
  return -1;
}

// ---------------------------------------------------------------- worker
static double now_s() { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec / 1e6; }
static double DEADLINE;
static int PASS_GEN;
static void worker(int jobs) {
  std::vector<Task> local; u64 execs = 0, fresh = 0; u64 outc = 0, outx = 0; int maxdepth = 0; u64 maxnow = 0; int mygen = PASS_GEN; bool idle = false;
  alarm(20);
  for (;;) {
    if (SH->stop || *CONF_GEN != mygen) break;
    if (local.empty()) {
      lock();
      if (SH->qn > 0) { int k = SH->qn > 4 * jobs ? 4 : 1; while (k-- && SH->qn > 0) local.push_back(SH->q[--SH->qn]); if (idle) { idle = false; SH->idle--; } unlock(); }
      else { if (!idle) { idle = true; SH->idle++; } int d = SH->idle; unlock(); if (d >= jobs) break; usleep(200); continue; }
    }
    Task t = local.back(); local.pop_back();
    run(&t, &local);
    execs++;
    if (CACHED_PRUNE) n_pruned++;
    else if (!PRUNED) {
      if (POS > maxdepth) maxdepth = POS; if (W.now > maxnow) maxnow = W.now;
      u64 oh = (LOGHASH ^ SETUPH * 31) | 1; 
      for (int i = 0; i < 64; i++) { u64 *e = &OT[(oh + i) & (OT_N - 1)]; if (*e == oh) break; if (*e == 0 && __sync_bool_compare_and_swap(e, 0, oh)) { outc++; outx += oh * 0x9e3779b97f4a7c15ull ^ oh >> 17; break; } }
    }
    if (FAILED && *CONF_GEN == mygen) {
      int k = known_match();
      lock();
      if (k >= 0) { SH->known_hits[k]++; }
      else {
        if (SH->nvio < MAXVIO) { Vio *v = &SH->vio[SH->nvio++]; v->t = t; strcpy(v->prop, FAIL_PROP); strcpy(v->msg, FAIL_MSG); v->known = 0; }
        SH->stop = 1;
      }
      unlock();
    } else if (FAILED) {
      lock(); if (known_match() < 0 && SH->nvio < MAXVIO) { Vio *v = &SH->vio[SH->nvio++]; v->t = t; strcpy(v->prop, FAIL_PROP); strcpy(v->msg, FAIL_MSG); v->known = 2; } unlock();
    }
    if (local.size() > 8 && SH->qn < 2 * jobs && SH->idle > 0) {
      lock();
      size_t give = local.size() / 2; if (give > 64) give = 64;
      for (size_t i = 0; i < give && SH->qn < QCAP; i++) SH->q[SH->qn++] = local[i];
      local.erase(local.begin(), local.begin() + give);
      unlock();
    }
    if ((execs & 255) == 0 && now_s() > DEADLINE) { SH->capped = 1; SH->stop = 1; }
  }
  lock();
  SH->execs += execs; SH->pruned += n_pruned; SH->trans += NTRANS; SH->states += n_states; SH->outcomes += outc; SH->outhash += outx; SH->fresh += fresh;
  if (maxdepth > SH->maxdepth) SH->maxdepth = maxdepth;
  if (maxnow > SH->maxnow) SH->maxnow = maxnow;
  unlock();
}

static void pass(int jobs) {
  SH->qn = 0; SH->idle = 0; SH->stop = 0; SH->execs = SH->pruned = SH->trans = SH->states = SH->outcomes = SH->outhash = 0; SH->maxdepth = 0; SH->cachefull = 0; SH->capped = 0; SH->lock = 0;
  memset((void *)SH->known_hits, 0, sizeof SH->known_hits);
  if (VT) { munmap(VT, (VT_MASK + 1) * 8); munmap(OT, OT_N * 8); }
  VT = (u64 *)shmap((VT_MASK + 1) * 8); OT = (u64 *)shmap(OT_N * 8);
  Task root; memset(&root, 0, sizeof root); SH->q[SH->qn++] = root;
  PASS_GEN = *CONF_GEN; memcpy(CONF_P, CONF, LIB.hi - LIB.lo);
  std::vector<pid_t> kids;
  for (int i = 0; i < jobs; i++) {
    pid_t p = fork();
    if (p == 0) { worker(jobs); _exit(0); }
    if (p < 0) { perror("fork"); exit(3); }
    kids.push_back(p);
  }
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "monsim: a worker ended with status %x\n", st); SH->harderr = 1; SH->stop = 1; } }
}

static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); } else if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); } fputc('"', f); }

extern "C" void *__tls_get_addr(size_t *);
static int phdr_cb(struct dl_phdr_info *i, size_t, void *p) {
  struct link_map *lm = (struct link_map *)p;
  if ((u64)i->dlpi_addr != (u64)lm->l_addr || strcmp(i->dlpi_name, lm->l_name)) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *h = &i->dlpi_phdr[k];
    if (h->p_type == PT_TLS) { size_t m[2] = {i->dlpi_tls_modid, 0}; TLS.live = (char *)__tls_get_addr(m); TLS.size = h->p_memsz; TLS.filesz = h->p_filesz; TLS.image = (char *)(i->dlpi_addr + h->p_vaddr); }
    if (h->p_type != PT_LOAD) continue;
    char *lo = (char *)(i->dlpi_addr + h->p_vaddr), *hi = lo + h->p_memsz;
    if (h->p_flags & PF_W) { LIB.lo = lo; LIB.hi = hi; }
    if (h->p_flags & PF_X) { LIB.text_lo = lo; LIB.text_hi = hi; }
  }
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
    char *e = (char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz);
    e = (char *)(((u64)e + 4095) & ~4095ull); if (e > LIB.lo && e <= LIB.hi) LIB.lo = e;
  }
  return 1;
}
void *libsym(const char *n) { return dlsym(LIB.handle, n); }
void bind_api();

int CFG_SHOOT; const char *CFG_CLIENT = "";
int main(int argc, char **argv) {
  if (!getenv("MONSIM_NOASLR")) { setenv("MONSIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  const char *lib = nullptr, *scn = nullptr, *out = nullptr, *replay = nullptr, *known = nullptr; int jobs = 8; bool list = false; bool iter = true;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
    if (a == "--lib") lib = nx(); else if (a == "--static") DYNAMIC = false; else if (a == "--scenario") scn = nx(); else if (a == "--bound") BOUND = atoi(nx());
    else if (a == "--jobs") jobs = atoi(nx()); else if (a == "--only") ONLY = nx(); else if (a == "--param") PARAM = atol(nx()); else if (a == "--time") TIMECAP = atoi(nx());
    else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--known") known = nx(); else if (a == "--list") list = true; else if (a == "--nocache") CACHE = false;
    else if (a == "--noiter") iter = false; else if (a == "--debugenv") DEBUGENV = true; else if (a == "--subsets") SUBSETS = true; else if (a == "--csig") CFG_CLIENT = nx(); else if (a == "--shoot") CFG_SHOOT = atoi(nx()); else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (list) { for (Scenario *s = scn_list; s; s = s->next) printf("%s\t%s\n", s->name, s->what); return 0; }
  std::string rscn; Task rt; memset(&rt, 0, sizeof rt);
  if (replay) {
    FILE *f = fopen(replay, "r"); if (!f) { perror(replay); return 2; }
    char line[65536];
    static std::string rlib, ronly; 
    while (fgets(line, sizeof line, f)) {
      line[strcspn(line, "\n")] = 0;
      if (!strncmp(line, "scenario ", 9)) { rscn = line + 9; scn = rscn.c_str(); }
      else if (!strncmp(line, "static ", 7)) DYNAMIC = !atoi(line + 7);
      else if (!strncmp(line, "param ", 6)) PARAM = atol(line + 6);
      else if (!strncmp(line, "debugenv ", 9)) DEBUGENV = atoi(line + 9);
      else if (!strncmp(line, "subsets ", 8)) SUBSETS = atoi(line + 8);
      else if (!strncmp(line, "only ", 5)) { ronly = line + 5; ONLY = ronly.c_str(); }
      else if (!strncmp(line, "lib ", 4) && !lib) { rlib = line + 4; lib = rlib.c_str(); }
      else if (!strncmp(line, "choices ", 8)) { char *p = line + 8; int a, b, c, k; while (sscanf(p, "%d:%d/%d%n", &a, &b, &c, &k) == 3) { rt.d[rt.ndev++] = {(uint16_t)a, (uint8_t)b, (uint8_t)c}; rt.start = a + 1; p += k; } }
      else if (!strncmp(line, "conflicts ", 10)) { /* restored below */ static std::string cs; cs = line + 10; setenv("MONSIM_CONF", cs.c_str(), 1); }
    }
    fclose(f);
  }
  if (!lib || !scn) { fprintf(stderr, "usage: monsim --lib L --scenario S [--bound N] ...\n"); return 2; }
  for (SCN = scn_list; SCN; SCN = SCN->next) if (!strcmp(SCN->name, scn)) break;
  if (!SCN) { fprintf(stderr, "no scenario %s\n", scn); return 2; }
  LIB.handle = dlopen(lib, RTLD_NOW | RTLD_LOCAL);
  if (!LIB.handle) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 3; }
  struct link_map *lm; dlinfo(LIB.handle, RTLD_DI_LINKMAP, &lm);
  dl_iterate_phdr(phdr_cb, lm);
  lib_ctors = (void (*)())libsym("mon_run_ctors"); lib_dtors = (void (*)())libsym("mon_run_dtors");
  bind_api();
  load_objects(lib);
  SNAP.assign(LIB.lo, LIB.hi);
  REDZ = (uint8_t *)calloc(LIB.hi - LIB.lo + 64, 1);
  { char **z = nullptr; int n = ((int (*)(char ***))libsym("mon_redzones"))(&z); for (int i = 0; i < n; i++) if (z[i] >= LIB.lo && z[i] + 64 <= LIB.hi) { memset(REDZ + (z[i] - LIB.lo), 1, 64); REDZONES.push_back(z[i]); } }
  CONF = (uint8_t *)shmap(LIB.hi - LIB.lo + 64); CONF_GEN = (volatile int *)shmap(4096); CONF_P = (uint8_t *)calloc(LIB.hi - LIB.lo + 64, 1);
  SH = (Shared *)shmap(sizeof(Shared)); VT_MASK = (1ull << 26) - 1;
  if (known) load_known(known);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = malloc(65536); ss.ss_size = 65536; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
  setvbuf(stdout, nullptr, _IOLBF, 0);

  if (replay) {
    const char *cs = getenv("MONSIM_CONF");
    if (cs) { int a, b, k; while (sscanf(cs, "%d+%d%n", &a, &b, &k) == 2) { for (int i = a; i < a + b; i++) if (i < LIB.hi - LIB.lo) CONF_P[i] = 1; cs += k; while (*cs == ' ') cs++; } }
    VERBOSE = true;
    printf("replaying %s\n", SCN->name); alarm(20);
    run(&rt, nullptr);
    if (FAILED) { printf("RESULT violation %s: %s\n", FAIL_PROP, FAIL_MSG); return 1; }
    printf("RESULT no violation\n");
    return 0;
  }
  double t0 = now_s(); DEADLINE = t0 + TIMECAP;
  int B = BOUND; int passes = 0; u64 total_execs = 0;
  int b = iter ? 0 : B;
  for (;;) {
    BOUND = b;
    int g = *CONF_GEN;
    pass(jobs); passes++;
    total_execs += SH->execs;
    if (SH->harderr || SH->diverged) { fprintf(stderr, "monsim: internal error in %s\n", SCN->name); return 3; }
    bool newvio = SH->nvio > 0;
    if (*CONF_GEN != g && !newvio && !SH->capped) continue;
    if (newvio || SH->capped || b == B) break;
    b++;
  }
  // replay violations twice and write replay files
  int nreal = 0;
  std::string cstr; { size_t n = LIB.hi - LIB.lo; char bb[64]; for (size_t i = 0; i < n; i++) if (CONF_P[i]) { size_t j = i; while (j < n && CONF_P[j]) j++; snprintf(bb, sizeof bb, "%zu+%zu ", i, j - i); cstr += bb; i = j; } }
  FILE *jf = out ? fopen(out, "w") : nullptr;
  if (jf) { fprintf(jf, "{\"scenario\":"); jstr(jf, SCN->name); fprintf(jf, ",\"what\":"); jstr(jf, SCN->what); fprintf(jf, ",\"violations\":["); }
  for (int i = 0; i < SH->nvio; i++) {
    Vio *v = &SH->vio[i]; int same = 0;
    // a violation seen while the conflict map still grew may have another choice numbering: such are only kept if they replay
    for (int r = 0; r < 2; r++) {
      int st; pid_t p = fork();
      if (p == 0) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); alarm(20); run(&v->t, nullptr); _exit(FAILED && !strcmp(FAIL_PROP, v->prop) && !strcmp(FAIL_MSG, v->msg) ? 42 : 7); }
      waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 42) same++;
    }
    if (same != 2) { if (v->known != 2) { fprintf(stderr, "monsim: violation did not replay in %s: %s\n", SCN->name, v->msg); SH->harderr = 1; } continue; }
    char rf[512]; snprintf(rf, sizeof rf, "%s.replay%d", out ? out : "/tmp/monsim", nreal);
    FILE *f = fopen(rf, "w");
    fprintf(f, "# %s: %s\nscenario %s\nlib %s\nstatic %d\nparam %ld\ndebugenv %d\nsubsets %d\n", v->prop, v->msg, SCN->name, lib, !DYNAMIC, PARAM, DEBUGENV, SUBSETS);
    if (ONLY) fprintf(f, "only %s\n", ONLY);
    fprintf(f, "choices "); for (int k = 0; k < v->t.ndev; k++) fprintf(f, "%d:%d/%d ", v->t.d[k].idx, v->t.d[k].c, v->t.d[k].n);
    fprintf(f, "\nconflicts %s\n", cstr.c_str());
    fclose(f);
    if (jf) { if (nreal) fprintf(jf, ","); fprintf(jf, "{\"prop\":"); jstr(jf, v->prop); fprintf(jf, ",\"msg\":"); jstr(jf, v->msg); fprintf(jf, ",\"replay\":"); jstr(jf, rf); fprintf(jf, "}"); }
    printf("VIOLATION-IN %s %s: %s (replay %s)\n", SCN->name, v->prop, v->msg, rf);
    nreal++;
  }
  if (SH->nvio && !nreal && !SH->harderr) { // found during map growth only: explore on
    fprintf(stderr, "monsim: unreplayable transient violation in %s\n", SCN->name); SH->harderr = 1;
  }
  int nconf = 0; for (size_t i = 0; i < (size_t)(LIB.hi - LIB.lo); i++) nconf += CONF[i];
  double wall = now_s() - t0;
  printf("%-28s bound=%d execs=%lu states=%lu transitions=%lu pruned=%lu outcomes=%lu maxchoices=%d conflictbytes=%d passes=%d %s%.1fs\n", SCN->name, b, SH->execs, SH->states, SH->trans, SH->pruned, SH->outcomes, SH->maxdepth, nconf, passes, SH->capped ? "CAPPED " : "", wall);
  if (jf) {
    fprintf(jf, "],\"known\":[");
    bool first = true; for (size_t i = 0; i < KNOWN.size(); i++) if (SH->known_hits[i]) { if (!first) fprintf(jf, ","); first = false; fprintf(jf, "{\"prop\":"); jstr(jf, KNOWN[i].prop.c_str()); fprintf(jf, ",\"text\":"); jstr(jf, KNOWN[i].text.c_str()); fprintf(jf, ",\"hits\":%lu}", SH->known_hits[i]); }
    // one sample execution: the default one
    fprintf(jf, "],\"bound\":%d,\"executions\":%lu,\"all_passes_executions\":%lu,\"states\":%lu,\"transitions\":%lu,\"pruned\":%lu,\"outcomes\":%lu,\"outcome_hash\":%lu,\"maxchoices\":%d,\"conflict_bytes\":%d,\"passes\":%d,\"capped\":%s,\"cachefull\":%s,\"sim_seconds\":%.1f,\"wall_s\":%.2f,\"sample\":[", b, SH->execs, total_execs, SH->states, SH->trans, SH->pruned, SH->outcomes, SH->outhash, SH->maxdepth, nconf, passes, SH->capped ? "true" : "false", SH->cachefull ? "true" : "false", SH->maxnow / 1e6, wall);
    Task root; memset(&root, 0, sizeof root); alarm(20); run(&root, nullptr); alarm(0);
    for (int i = 0; i < NLOG && i < 40; i++) { char bb[200]; snprintf(bb, sizeof bb, "%sT%d%s %s(%ld,%ld,%ld)", i ? "" : "", LOG[i].thr, LOG[i].depth ? "*" : "", LOG[i].type == E_CBEND ? "end" : evname(LOG[i].type), LOG[i].a, LOG[i].b, LOG[i].c); if (i) fprintf(jf, ","); jstr(jf, bb); }
    fprintf(jf, "]}\n"); fclose(jf);
  }
  if (SH->harderr) return 3;
  return nreal ? 1 : 0;
}
