// Stands for the command the scripts run: records its arguments and two variables, and ends as asked. No libc features that depend on them.
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
int main(int argc, char **argv) {
  FILE *f = fopen(getenv("STUB_OUT"), "a"); if (!f) return 99;
  for (int i = 0; i < argc; i++) { fputs(argv[i], f); fputc(0, f); }
  fputc(1, f);
  const char *v[] = {"LD_PRELOAD", "MONITOR_DEBUG", "OTHER"};
  for (int i = 0; i < 3; i++) { const char *e = getenv(v[i]); fputs(e ? "=" : "-", f); if (e) fputs(e, f); fputc(0, f); }
  fputc(2, f); fclose(f);
  const char *r = getenv("STUB_END"); int n = r ? atoi(r) : 0;
  if (n < 0) raise(-n);
  return n;
}
