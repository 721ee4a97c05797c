// A client that writes every callback to the file CONF_LOG.
#define _GNU_SOURCE
#include "monitor.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/syscall.h>
void conf_log(const char *fmt, ...) {
  const char *f = getenv("CONF_LOG"); char b[200]; va_list ap;
  if (!f) return;
  int n = snprintf(b, sizeof b, "%ld %ld ", (long)syscall(SYS_getpid), (long)syscall(SYS_gettid));
  va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - n - 1, fmt, ap); va_end(ap);
  b[n++] = '\n';
  int fd = syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_APPEND | O_CREAT, 0600);
  if (fd >= 0) { syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); }
}
void monitor_init_library(void) { conf_log("init_library"); }
void monitor_fini_library(void) { conf_log("fini_library"); }
void *monitor_init_process(int *argc, char **argv, void *data) { conf_log("init_process"); return (void *)0x1111; }
void monitor_fini_process(int how, void *data) { conf_log("fini_process %d%s", how, data == (void *)0x1111 ? "" : " bad data"); }
void monitor_begin_process_exit(int how) { conf_log("begin_process_exit %d", how); }
void monitor_start_main_init(void) { conf_log("start_main_init"); }
void monitor_at_main(void) { conf_log("at_main"); }
void *monitor_pre_fork(void) { conf_log("pre_fork"); return (void *)0x2222; }
void monitor_post_fork(pid_t child, void *data) { conf_log("post_fork%s", data == (void *)0x2222 ? "" : " bad data"); }
void *monitor_thread_pre_create(void) { conf_log("thread_pre_create"); return (void *)0x3333; }
void monitor_thread_post_create(void *data) { conf_log("thread_post_create%s", data == (void *)0x3333 ? "" : " bad data"); }
void monitor_init_thread_support(void) { conf_log("init_thread_support"); }
void *monitor_init_thread(int tid, void *data) { conf_log("init_thread%s", data == (void *)0x3333 ? "" : " bad data"); return (void *)(0x4440L + tid); }
void monitor_fini_thread(void *data) { conf_log("fini_thread%s", data == monitor_get_user_data() ? "" : " bad data"); }
size_t monitor_reset_stacksize(size_t n) { conf_log("reset_stacksize"); return n; }
void monitor_pre_dlopen(const char *path, int flags) { conf_log("pre_dlopen"); }
void monitor_dlopen(const char *path, int flags, void *handle) { conf_log("dlopen"); }
void monitor_dlclose(void *handle) { conf_log("dlclose"); }
void monitor_post_dlclose(void *handle, int ret) { conf_log("post_dlclose"); }
