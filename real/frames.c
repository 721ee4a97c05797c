// Enumerates every executable address of the process with the bottom-frame predicates, in the main thread, in threads and in forked children.
// Output (file FRAMES_OUT), one context per paragraph:
//   context NAME KIND(main|thread)
//   ret ADDR        return address of the application function the monitor called
//   frame LO HI     that caller's own stack frame
//   bottom ADDR     monitor_stack_bottom
//   P LO HI         predicate P (process, thread, wide, narrow) holds for every address in [LO, HI]
//   range LO HI     the addresses enumerated
#define _GNU_SOURCE
#include "monitor.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <unwind.h>
#include <sys/wait.h>
#ifdef STATIC
#define SYM(f) f
static void syms(void) { }
#else
#include <dlfcn.h>
#define SYM(f) p_##f
#define D(f) static __typeof__(f) *p_##f;
D(monitor_unwind_process_bottom_frame) D(monitor_unwind_thread_bottom_frame) D(monitor_in_start_func_wide) D(monitor_in_start_func_narrow) D(monitor_stack_bottom)
static void syms(void) {
#define L(f) p_##f = (__typeof__(f) *)dlsym(RTLD_DEFAULT, #f); if (!p_##f) exit(90);
  L(monitor_unwind_process_bottom_frame) L(monitor_unwind_thread_bottom_frame) L(monitor_in_start_func_wide) L(monitor_in_start_func_narrow) L(monitor_stack_bottom)
}
#endif
static FILE *out;
struct look { unsigned long ret, lo, hi; int st; };
static _Unwind_Reason_Code cb(struct _Unwind_Context *c, void *p) {
  struct look *l = p; unsigned long ip = _Unwind_GetIP(c), cfa = _Unwind_GetCFA(c);
  if (l->st == 1) { l->hi = cfa; l->st = 2; return _URC_END_OF_STACK; }
  if (ip == l->ret) { l->lo = cfa; l->st = 1; }
  return _URC_NO_REASON;
}
static void look(const char *name, const char *kind, void *ret) {
  struct look l = {(unsigned long)ret, 0, 0, 0};
  fprintf(out, "context %s %s\nret %lx\n", name, kind, l.ret);
  _Unwind_Backtrace(cb, &l);
  if (l.st == 2) fprintf(out, "frame %lx %lx\n", l.lo, l.hi);
  fprintf(out, "bottom %lx\n", (unsigned long)SYM(monitor_stack_bottom)());
  FILE *m = fopen("/proc/self/maps", "r"); char b[4096];
  int (*f[4])(void *) = {(void *)SYM(monitor_unwind_process_bottom_frame), (void *)SYM(monitor_unwind_thread_bottom_frame), (void *)SYM(monitor_in_start_func_wide), (void *)SYM(monitor_in_start_func_narrow)};
  const char *n[4] = {"process", "thread", "wide", "narrow"};
  while (fgets(b, sizeof b, m)) {
    unsigned long lo, hi; char perm[8];
    if (sscanf(b, "%lx-%lx %7s", &lo, &hi, perm) != 3 || perm[2] != 'x') continue;
    unsigned long off; int pos = 0; sscanf(b, "%*s %*s %lx %*s %*s %n", &off, &pos); b[strcspn(b, "\n")] = 0;
    fprintf(out, "range %lx %lx %lx %s\n", lo - 1, hi, off, pos ? b + pos : "");
    for (int k = 0; k < 4; k++) {
      unsigned long beg = 0; int in = 0;
      for (unsigned long a = lo - 1; a != hi + 1; a++) {
        int t = f[k]((void *)a) != 0;
        if (t && !in) beg = a, in = 1;
        if (!t && in) fprintf(out, "%s %lx %lx\n", n[k], beg, a - 1), in = 0;
      }
      if (in) fprintf(out, "%s %lx %lx\n", n[k], beg, hi);
    }
  }
  fclose(m);
  unsigned long odd[] = {0, 1, 0xfff, 0x7fffffffffff, ~0ul, ~0ul >> 1, 1ul << 63, (unsigned long)&odd, (unsigned long)out};
  for (int i = 0; i < sizeof odd / sizeof *odd; i++) for (int k = 0; k < 4; k++) if (f[k]((void *)odd[i])) fprintf(out, "%s %lx %lx\n", n[k], odd[i], odd[i]);
  fprintf(out, "done\n");
  fflush(out);
}
struct a { const char *name; int nest; };
static void *body(void *p) {
  struct a *a = p; pthread_t t; struct a n = {"nested-thread", 0}; int st;
  look(a->name, "thread", __builtin_return_address(0));
  if (a->nest) {
    pthread_create(&t, NULL, body, &n); pthread_join(t, NULL);
    fflush(out); pid_t r = fork();
    if (r == 0) { look("child-of-thread", "thread", __builtin_return_address(0)); struct a k = {"thread-of-child", 0}; pthread_create(&t, NULL, body, &k); pthread_join(t, NULL); _exit(0); }
    waitpid(r, &st, 0); if (st) fprintf(out, "childstatus %d\n", st);
  }
  return NULL;
}
static void open_out(void) { if (!out) { syms(); out = fopen(getenv("FRAMES_OUT"), "a"); if (!out) exit(91); } }
#ifndef STATIC
__attribute__((constructor)) static void early(void) {
  pthread_t t; struct a n = {"constructor-thread", 0}; open_out();
  pthread_create(&t, NULL, body, &n); pthread_join(t, NULL);
}
#endif
int main(int argc, char **argv) {
  pthread_t t; struct a n = {"thread", 1}; int st;
  open_out();
  look("main", "main", __builtin_return_address(0));
  pthread_create(&t, NULL, body, &n); pthread_join(t, NULL);
  fflush(out); pid_t r = fork();
  if (r == 0) { look("child-of-main", "main", __builtin_return_address(0)); _exit(0); }
  waitpid(r, &st, 0); if (st) fprintf(out, "childstatus %d\n", st);
  fprintf(out, "end\n"); fclose(out);
  return 0;
}
