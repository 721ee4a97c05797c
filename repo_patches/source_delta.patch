From a03540cc04310bc3c2003db8b4e1088d13244a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:05 +0000
Subject: [PATCH 01/32] fix: pass the pre-create data to
 monitor_thread_post_create

The new thread may already have replaced tn_user_data with the return
value of monitor_init_thread, or have ended and given its node to
another thread, so use the value that pre-create returned.
---
 src/pthread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 41a8a72..77a4a91 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1166,7 +1166,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     MONITOR_DEBUG("calling monitor_thread_post_create(start_routine = %p) ...\n",
 		  start_routine);
-    monitor_thread_post_create(tn->tn_user_data);
+    monitor_thread_post_create(user_data);
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-- 
2.43.0


From 7a21247b6a4b2525fbdfbd7c1bf6761451dc1fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 02/32] fix: run monitor_fini_library only once

Two threads that end the process at the same time could both see the
flag unset, since it was set only after the callback returned.
---
 src/main.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 34f6708..3bf9b84 100644
--- a/src/main.c
+++ b/src/main.c
@@ -143,7 +143,7 @@ static char **monitor_argv = NULL;
 static char **monitor_envp = NULL;
 
 volatile static char monitor_init_library_called = 0;
-volatile static char monitor_fini_library_called = 0;
+volatile static long monitor_fini_library_called = 0;
 volatile static char monitor_fini_process_done = 0;
 volatile static long monitor_end_process_cookie = 0;
 
@@ -240,12 +240,11 @@ monitor_begin_library_fcn(void)
 void
 monitor_end_library_fcn(void)
 {
-    if (monitor_fini_library_called)
+    if (compare_and_swap(&monitor_fini_library_called, 0, 1) != 0)
 	return;
 
     MONITOR_DEBUG1("calling monitor_fini_library() ...\n");
     monitor_fini_library();
-    monitor_fini_library_called = 1;
 }
 
 /*
-- 
2.43.0


From 9ebc60f2aed4a69812df5bac625a7f704ae38abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 03/32] fix: block signals while holding the thread lock

A fatal signal that arrives while its thread holds the lock starts
process exit in that thread, and monitor_thread_shootdown() then spins
forever on a lock that the same thread holds.
---
 src/pthread.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 77a4a91..4f4a922 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -182,6 +182,19 @@ static malloc_fcn_t  *real_malloc = NULL;
 #define MONITOR_THREAD_TRYLOCK  spinlock_trylock(&monitor_thread_lock)
 #define MONITOR_THREAD_UNLOCK   spinlock_unlock(&monitor_thread_lock)
 
+/*
+ *  Also block signals while holding the lock, or else a fatal signal
+ *  would start process exit in the thread that holds the lock and then
+ *  shootdown would wait on it forever.
+ */
+#define MONITOR_BLOCK_SIGNALS(old_set)  do {			\
+    sigset_t all_set;						\
+    sigfillset(&all_set);					\
+    (*real_pthread_sigmask)(SIG_BLOCK, &all_set, &(old_set));	\
+} while (0)
+#define MONITOR_RESTORE_SIGNALS(old_set)  \
+    (*real_pthread_sigmask)(SIG_SETMASK, &(old_set), NULL)
+
 static spinlock_t monitor_thread_lock = SPINLOCK_UNLOCKED;
 
 static struct monitor_thread_node monitor_init_tn_array[MONITOR_TN_ARRAY_SIZE];
@@ -366,7 +379,9 @@ static struct monitor_thread_node *
 monitor_make_thread_node(void)
 {
     struct monitor_thread_node *tn;
+    sigset_t old_set;
 
+    MONITOR_BLOCK_SIGNALS(old_set);
     MONITOR_THREAD_LOCK;
 
     tn = LIST_FIRST(&monitor_free_list);
@@ -396,6 +411,7 @@ monitor_make_thread_node(void)
     tn->tn_tid = -1;
 
     MONITOR_THREAD_UNLOCK;
+    MONITOR_RESTORE_SIGNALS(old_set);
     return (tn);
 }
 
@@ -406,22 +422,30 @@ monitor_make_thread_node(void)
 static int
 monitor_link_thread_node(struct monitor_thread_node *tn)
 {
+    sigset_t old_set;
+
+    MONITOR_BLOCK_SIGNALS(old_set);
     MONITOR_THREAD_LOCK;
 
     if (monitor_in_exit_cleanup) {
 	MONITOR_THREAD_UNLOCK;
+	MONITOR_RESTORE_SIGNALS(old_set);
 	return (1);
     }
     tn->tn_tid = ++monitor_thread_num;
     LIST_INSERT_HEAD(&monitor_thread_list, tn, tn_links);
 
     MONITOR_THREAD_UNLOCK;
+    MONITOR_RESTORE_SIGNALS(old_set);
     return (0);
 }
 
 static void
 monitor_unlink_thread_node(struct monitor_thread_node *tn)
 {
+    sigset_t old_set;
+
+    MONITOR_BLOCK_SIGNALS(old_set);
     MONITOR_THREAD_LOCK;
     /*
      * Don't delete the thread node if in exit cleanup, just mark the
@@ -436,6 +460,7 @@ monitor_unlink_thread_node(struct monitor_thread_node *tn)
 	LIST_INSERT_HEAD(&monitor_free_list, tn, tn_links);
     }
     MONITOR_THREAD_UNLOCK;
+    MONITOR_RESTORE_SIGNALS(old_set);
 }
 
 static void
@@ -514,7 +539,7 @@ monitor_thread_shootdown(void)
     struct timeval last, now;
     struct monitor_thread_node *tn, *my_tn, *main_tn;
     struct sigaction my_action;
-    sigset_t empty_set;
+    sigset_t empty_set, old_set;
     pthread_t self;
     int num_started, num_unstarted, last_started;
     int num_finished, num_unfinished, old_state;
@@ -526,9 +551,11 @@ monitor_thread_shootdown(void)
 
     (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
 
+    MONITOR_BLOCK_SIGNALS(old_set);
     MONITOR_THREAD_LOCK;
     monitor_in_exit_cleanup = 1;
     MONITOR_THREAD_UNLOCK;
+    MONITOR_RESTORE_SIGNALS(old_set);
     MONITOR_DEBUG1("(threads)\n");
 
     /*
@@ -765,13 +792,17 @@ int
 monitor_broadcast_signal(int sig)
 {
     struct monitor_thread_node *tn;
+    sigset_t old_set;
     pthread_t self;
 
     if (! monitor_has_used_threads)
 	return (SUCCESS);
 
-    if (MONITOR_THREAD_TRYLOCK != 0)
+    MONITOR_BLOCK_SIGNALS(old_set);
+    if (MONITOR_THREAD_TRYLOCK != 0) {
+	MONITOR_RESTORE_SIGNALS(old_set);
 	return (FAILURE);
+    }
 
     self = (*real_pthread_self)();
     for (tn = LIST_FIRST(&monitor_thread_list);
@@ -789,6 +820,7 @@ monitor_broadcast_signal(int sig)
 	(*real_pthread_kill)(tn->tn_self, sig);
 
     MONITOR_THREAD_UNLOCK;
+    MONITOR_RESTORE_SIGNALS(old_set);
     return (SUCCESS);
 }
 
-- 
2.43.0


From 194ad31079beb7c01570f1f0dc036ec71e1f041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:19 +0000
Subject: [PATCH 04/32] fix: clear the thread-specific pointer to a freed
 thread node

The thread still runs its key destructors (and may get signals) after
its node was put on the free list.  The next new thread reuses the node,
so queries in the old thread returned the data of the new one.
---
 src/pthread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pthread.c b/src/pthread.c
index 4f4a922..b890544 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -456,6 +456,7 @@ monitor_unlink_thread_node(struct monitor_thread_node *tn)
 	tn->tn_fini_done = 1;
     } else {
 	LIST_REMOVE(tn, tn_links);
+	(*real_pthread_setspecific)(monitor_pthread_key, NULL);
 	memset(tn, 0, sizeof(struct monitor_thread_node));
 	LIST_INSERT_HEAD(&monitor_free_list, tn, tn_links);
     }
-- 
2.43.0


From 09013c5a1d0781d5e85d1bc831e819377894b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:19 +0000
Subject: [PATCH 05/32] fix: run monitor_fini_thread only once per thread

The shootdown signal may arrive after the cleanup routine (or the
sigwait override) has looked at tn_fini_started and before it sets it,
and then both the handler and the interrupted code ran the callback.
Claim the callback with one atomic step.
---
 src/pthread.c   | 14 +++++++++-----
 src/pthread_h.h |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index b890544..28c18a5 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -492,7 +492,10 @@ monitor_shootdown_handler(int sig)
     }
 
     (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-    tn->tn_fini_started = 1;
+    if (compare_and_swap(&tn->tn_fini_started, 0, 1) != 0) {
+	(*real_pthread_setcancelstate)(old_state, NULL);
+	return;
+    }
     MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		  tn->tn_user_data, tn->tn_tid);
     monitor_fini_thread(tn->tn_user_data);
@@ -958,7 +961,9 @@ monitor_pthread_cleanup_routine(void *arg)
 	return;
     }
 
-    tn->tn_fini_started = 1;
+    if (compare_and_swap(&tn->tn_fini_started, 0, 1) != 0) {
+	return;
+    }
     MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		  tn->tn_user_data, tn->tn_tid);
     monitor_fini_thread(tn->tn_user_data);
@@ -1291,11 +1296,10 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
 	&& !monitor_fini_thread_done
 	&& tn != NULL
 	&& tn->tn_appl_started
-	&& !tn->tn_fini_started
-	&& !tn->tn_block_shootdown)
+	&& !tn->tn_block_shootdown
+	&& compare_and_swap(&tn->tn_fini_started, 0, 1) == 0)
     {
 	(*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-	tn->tn_fini_started = 1;
 	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		      tn->tn_user_data, tn->tn_tid);
 	monitor_fini_thread(tn->tn_user_data);
diff --git a/src/pthread_h.h b/src/pthread_h.h
index c749593..58e4016 100644
--- a/src/pthread_h.h
+++ b/src/pthread_h.h
@@ -66,7 +66,7 @@ struct monitor_thread_node {
     char   tn_is_main;
     char   tn_ignore_threads;
     volatile char  tn_appl_started;
-    volatile char  tn_fini_started;
+    volatile long  tn_fini_started;
     volatile char  tn_fini_done;
     volatile char  tn_exit_win;
     volatile char  tn_block_shootdown;
-- 
2.43.0


From e26f040c05578c4c6fe23d58a76e8369ba0ded30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:55 +0000
Subject: [PATCH 06/32] fix: disable cancellation during fini-thread of a
 returning thread

When the start routine returns, the cleanup handler is popped before it
runs, so a cancellation inside monitor_fini_thread ended the thread with
tn_fini_done unset and process exit then waited for it forever.
---
 src/pthread.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 28c18a5..08fe4ed 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -940,6 +940,7 @@ static void
 monitor_pthread_cleanup_routine(void *arg)
 {
     struct monitor_thread_node *tn = arg;
+    int old_state;
 
     if (tn == NULL) {
 	MONITOR_WARN1("unable to deliver monitor_fini_thread callback: "
@@ -961,7 +962,9 @@ monitor_pthread_cleanup_routine(void *arg)
 	return;
     }
 
+    (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
     if (compare_and_swap(&tn->tn_fini_started, 0, 1) != 0) {
+	(*real_pthread_setcancelstate)(old_state, NULL);
 	return;
     }
     MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
@@ -970,6 +973,7 @@ monitor_pthread_cleanup_routine(void *arg)
     tn->tn_fini_done = 1;
 
     monitor_unlink_thread_node(tn);
+    (*real_pthread_setcancelstate)(old_state, NULL);
 }
 
 /*
-- 
2.43.0


From 74d316e121ee43331ed08466c71a39028c4a686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:55 +0000
Subject: [PATCH 07/32] fix: don't send the shootdown signal to a thread that
 has ended

The scan in monitor_thread_shootdown() could see that a thread has not
started its fini-thread callback and signal it after it ran the callback
and ended, which is undefined for a detached or joined thread.  Also, a
thread that ended with shootdown blocked stayed on the thread list.
Scan with the lock held and take every ending thread through
monitor_unlink_thread_node(), which needs the lock.
---
 src/pthread.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 08fe4ed..85b4491 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -608,6 +608,8 @@ monitor_thread_shootdown(void)
 	num_unstarted = 0;
 	num_finished = 0;
 	num_unfinished = 0;
+	MONITOR_BLOCK_SIGNALS(old_set);
+	MONITOR_THREAD_LOCK;
 	for (tn = LIST_FIRST(&monitor_thread_list);
 	     tn != NULL;
 	     tn = LIST_NEXT(tn, tn_links))
@@ -629,6 +631,8 @@ monitor_thread_shootdown(void)
 		    num_unfinished++;
 	    }
 	}
+	MONITOR_THREAD_UNLOCK;
+	MONITOR_RESTORE_SIGNALS(old_set);
 	MONITOR_DEBUG("started: %d, unstarted: %d, finished: %d, unfinished: %d\n",
 		      num_started, num_unstarted, num_finished, num_unfinished);
 	if (num_unfinished == 0)
@@ -954,6 +958,7 @@ monitor_pthread_cleanup_routine(void *arg)
     }
     if (!tn->tn_appl_started || tn->tn_fini_started || tn->tn_block_shootdown) {
 	/* fini-thread has already run, or else we don't want it to run. */
+	monitor_unlink_thread_node(tn);
 	return;
     }
     if (monitor_fini_thread_done) {
@@ -963,14 +968,12 @@ monitor_pthread_cleanup_routine(void *arg)
     }
 
     (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-    if (compare_and_swap(&tn->tn_fini_started, 0, 1) != 0) {
-	(*real_pthread_setcancelstate)(old_state, NULL);
-	return;
+    if (compare_and_swap(&tn->tn_fini_started, 0, 1) == 0) {
+	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
+		      tn->tn_user_data, tn->tn_tid);
+	monitor_fini_thread(tn->tn_user_data);
+	tn->tn_fini_done = 1;
     }
-    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
-		  tn->tn_user_data, tn->tn_tid);
-    monitor_fini_thread(tn->tn_user_data);
-    tn->tn_fini_done = 1;
 
     monitor_unlink_thread_node(tn);
     (*real_pthread_setcancelstate)(old_state, NULL);
-- 
2.43.0


From 76dc9e595f6f2aca08b7e7a48f84c3be32cc0f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:00 +0000
Subject: [PATCH 08/32] fix: no fini-thread for a thread that exits inside
 init-thread

If process exit starts in a thread inside its monitor_init_thread
callback (a fatal signal), then it got monitor_fini_thread with the
creation data before monitor_init_thread had returned.
---
 src/pthread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 85b4491..3afca6f 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -656,7 +656,7 @@ monitor_thread_shootdown(void)
     /*
      * See if we need to run fini_thread from this thread.
      */
-    if (my_tn != NULL && !my_tn->tn_fini_started) {
+    if (my_tn != NULL && my_tn->tn_appl_started && !my_tn->tn_fini_started) {
 	my_tn->tn_fini_started = 1;
 	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		      my_tn->tn_user_data, my_tn->tn_tid);
-- 
2.43.0


From f9ae9be82d867e9929cbb4d951d2c9618bd50c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:36 +0000
Subject: [PATCH 09/32] fix: record the thread that runs process exit in one
 atomic step

A fatal signal between the compare and swap and setting tn_exit_win, or
in a thread without a thread node, made the thread that runs the exit
callbacks wait for itself forever.  Use the thread id as the cookie.
---
 src/main.c      | 12 +++++-------
 src/pthread_h.h |  1 -
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index 3bf9b84..3cbb55d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -48,6 +48,7 @@
  */
 
 #include "config.h"
+#include <sys/syscall.h>
 #include <sys/types.h>
 #include <alloca.h>
 #ifdef MONITOR_DYNAMIC
@@ -299,18 +300,15 @@ monitor_begin_process_fcn(void *user_data, int is_fork)
 void
 monitor_end_process_fcn(int how)
 {
-    struct monitor_thread_node *tn = monitor_get_tn();
-    long prev;
+    long self, prev;
 
-    prev = compare_and_swap(&monitor_end_process_cookie, 0, 1);
+    self = syscall(SYS_gettid);
+    prev = compare_and_swap(&monitor_end_process_cookie, 0, self);
     if (prev == 0) {
 	/*
 	 * Race winner: use the first thread that starts process exit
 	 * to launch the fini-thread and fini-process callbacks.
 	 */
-	if (tn != NULL) {
-	    tn->tn_exit_win = 1;
-	}
 	MONITOR_DEBUG("calling monitor_begin_process_exit (how = %d) ...\n", how);
 	monitor_begin_process_exit(how);
 
@@ -319,7 +317,7 @@ monitor_end_process_fcn(int how)
 	MONITOR_DEBUG("calling monitor_fini_process (how = %d) ...\n", how);
 	monitor_fini_process(how, monitor_main_tn.tn_user_data);
     }
-    else if (tn != NULL && tn->tn_exit_win) {
+    else if (prev == self) {
 	/*
 	 * Repeat winner: somehow this thread has started process exit
 	 * again.  Assume the callbacks have had their chance.
diff --git a/src/pthread_h.h b/src/pthread_h.h
index 58e4016..da5c6c4 100644
--- a/src/pthread_h.h
+++ b/src/pthread_h.h
@@ -68,7 +68,6 @@ struct monitor_thread_node {
     volatile char  tn_appl_started;
     volatile long  tn_fini_started;
     volatile char  tn_fini_done;
-    volatile char  tn_exit_win;
     volatile char  tn_block_shootdown;
 };
 
-- 
2.43.0


From 2027044715cfd49dbb392ad33f73857f503aa3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:06 +0000
Subject: [PATCH 10/32] fix: don't deadlock if a fatal signal interrupts a
 fini-thread callback

If a thread gets a fatal signal inside monitor_fini_thread while another
thread runs process exit, then the first thread waited for process exit
to finish and process exit waited for the fini-thread callback.
---
 src/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 3cbb55d..1631bb6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -300,6 +300,7 @@ monitor_begin_process_fcn(void *user_data, int is_fork)
 void
 monitor_end_process_fcn(int how)
 {
+    struct monitor_thread_node *tn;
     long self, prev;
 
     self = syscall(SYS_gettid);
@@ -327,8 +328,13 @@ monitor_end_process_fcn(int how)
     else {
 	/*
 	 * Race loser: delay this thread until the fini callbacks are
-	 * finished.
+	 * finished.  And if this thread was interrupted inside its
+	 * fini-thread callback, then don't make the winner wait for it.
 	 */
+	tn = monitor_get_tn();
+	if (tn != NULL && tn->tn_fini_started) {
+	    tn->tn_fini_done = 1;
+	}
 	MONITOR_DEBUG("delay second thread trying to exit (how = %d)\n", how);
 	while (! monitor_fini_process_done) {
 	    usleep(MONITOR_POLL_USLEEP_TIME);
-- 
2.43.0


From 7f5512c8091a02b5d5125b17fabbab30fc651e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:27 +0000
Subject: [PATCH 11/32] fix: reset the thread lock and the exit state in a
 forked child

The child of a fork() while another thread held the thread lock hung on
its first pthread_create() or exit().  The child of a fork() during
process exit (also from an exit handler) never ran its fini-process
callback, did not start new threads, or hung in exit().
---
 src/main.c    | 6 +++++-
 src/pthread.c | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 1631bb6..a344989 100644
--- a/src/main.c
+++ b/src/main.c
@@ -267,6 +267,7 @@ monitor_begin_process_fcn(void *user_data, int is_fork)
 	 */
 	monitor_reset_thread_list(&monitor_main_tn);
 	monitor_main_tn.tn_user_data = user_data;
+	monitor_end_process_cookie = 0;
     }
     else if (val) {
 	/* If already called, then skip the init process callback.
@@ -469,9 +470,12 @@ monitor_real_fork(void)
     MONITOR_GET_REAL_NAME_WRAP(real_fork, fork);
     MONITOR_DEBUG1("(real)\n");
 
+    long self = syscall(SYS_gettid);
     pid_t ret = (*real_fork)();
     if (ret == 0) {
-	/* child process */
+	/* child process, process exit in another thread is gone */
+	monitor_end_process_cookie =
+	    (monitor_end_process_cookie == self) ? syscall(SYS_gettid) : 0;
 	monitor_reset_thread_list(&monitor_main_tn);
     }
     return ret;
diff --git a/src/pthread.c b/src/pthread.c
index 3afca6f..13ffe9a 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -357,6 +357,15 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
 	main_tn->tn_stack_bottom = tn->tn_stack_bottom;
 	main_tn->tn_is_main = 1;
     }
+    main_tn->tn_fini_started = 0;
+    main_tn->tn_fini_done = 0;
+    /*
+     * Another thread may have held the lock or run process exit, but
+     * that thread doesn't exist in the child.
+     */
+    MONITOR_THREAD_UNLOCK;
+    monitor_in_exit_cleanup = 0;
+    monitor_fini_thread_done = 0;
     /*
      * Free the thread list and the pthread key.  Technically, this
      * could leak memory, but only if the process spawns more than 150
-- 
2.43.0


From e4dbb5f8149476049b528b0083998ee7c239b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:27 +0000
Subject: [PATCH 12/32] fix: treat the end of a forked side thread as process
 exit

In the child of a fork() from a side thread, that thread is the main
thread.  When its start routine returned, the cleanup routine used the
old thread node: it ran monitor_fini_thread again, put stale nodes on
the thread list and the child ended without fini-process.
---
 src/pthread.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 13ffe9a..e38644a 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -955,6 +955,14 @@ monitor_pthread_cleanup_routine(void *arg)
     struct monitor_thread_node *tn = arg;
     int old_state;
 
+    /*
+     * In the child of a fork(), this thread is now the main thread.
+     */
+    if (monitor_get_tn() == monitor_get_main_tn()) {
+	monitor_end_process_fcn(MONITOR_EXIT_NORMAL);
+	return;
+    }
+
     if (tn == NULL) {
 	MONITOR_WARN1("unable to deliver monitor_fini_thread callback: "
 		      "missing cleanup handler argument\n");
-- 
2.43.0


From f0e90087fedc7682212820714a12ba2943d725bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:27 +0000
Subject: [PATCH 13/32] fix: no stale main thread data in the child of an
 ignored thread

The child kept the stack bottom and thread id of the parent's main
thread if an ignored thread forked.
---
 src/pthread.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index e38644a..0202644 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -349,12 +349,14 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
     if (tn == NULL) {
 	MONITOR_WARN1("tn should not be NULL here\n");
     }
-    else if (tn != main_tn) {
+    if (tn != main_tn) {
 	memset(main_tn, 0, sizeof(struct monitor_thread_node));
 	main_tn->tn_magic = MONITOR_TN_MAGIC;
 	main_tn->tn_tid = 0;
-	main_tn->tn_user_data = tn->tn_user_data;
-	main_tn->tn_stack_bottom = tn->tn_stack_bottom;
+	if (tn != NULL) {
+	    main_tn->tn_user_data = tn->tn_user_data;
+	    main_tn->tn_stack_bottom = tn->tn_stack_bottom;
+	}
 	main_tn->tn_is_main = 1;
     }
     main_tn->tn_fini_started = 0;
-- 
2.43.0


From 188c9730f52d4a8f83db7ecb356bcf43121be3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:41 +0000
Subject: [PATCH 14/32] fix: end the new-thread info also after an ignored
 thread

---
 src/pthread.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 0202644..33b1f1b 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1123,7 +1123,7 @@ int
 MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 {
     struct monitor_thread_node *tn, *my_tn;
-    struct monitor_thread_info mti;
+    struct monitor_thread_info mti, *old_info = NULL;
     pthread_attr_t default_attr;
     int ret, restore, destroy;
     size_t old_size;
@@ -1152,6 +1152,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     my_tn = monitor_get_tn();
     if (my_tn != NULL) {
+	old_info = my_tn->tn_thread_info;
 	my_tn->tn_thread_info = &mti;
     }
 
@@ -1168,7 +1169,11 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (my_tn == NULL || my_tn->tn_ignore_threads) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
-	return (*real_pthread_create)(thread, attr, start_routine, arg);
+	ret = (*real_pthread_create)(thread, attr, start_routine, arg);
+	if (my_tn != NULL) {
+	    my_tn->tn_thread_info = old_info;
+	}
+	return (ret);
     }
 
     /*
@@ -1195,7 +1200,9 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (user_data == MONITOR_IGNORE_NEW_THREAD) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
-	return (*real_pthread_create)(thread, attr, start_routine, arg);
+	ret = (*real_pthread_create)(thread, attr, start_routine, arg);
+	my_tn->tn_thread_info = old_info;
+	return (ret);
     }
 
     tn = monitor_make_thread_node();
@@ -1234,7 +1241,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-        my_tn->tn_thread_info = NULL;
+        my_tn->tn_thread_info = old_info;
     }
 
     return (ret);
-- 
2.43.0


From 1e1fa27a4f7f95dcc371f2e2ae9bdfce94396e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 15/32] fix: search PATH as execvp does when it is unset, long
 or has empty elements

---
 src/fork.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index a8a7260..04ad8d8 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -250,12 +250,13 @@ monitor_copy_va_args(char ***argv, char ***envp,
  *  Returns: 1 if "file" is executable, else 0.
  */
 #define COLON  ":"
+#define DEFAULT_PATH  "/bin:/usr/bin"
 #define SLASH  '/'
 static int
 monitor_is_executable(const char *file)
 {
     char buf[PATH_MAX], *path;
-    int  file_len, path_len;
+    int  file_len, path_len, len;
 
     if (file == NULL) {
 	MONITOR_DEBUG1("attempt to exec NULL path\n");
@@ -268,23 +269,35 @@ monitor_is_executable(const char *file)
     if (strchr(file, SLASH) != NULL)
 	return (access(file, X_OK) == 0);
 
+    /*
+     * An empty element of PATH means the current directory, and execvp
+     * has a default if PATH is unset.
+     */
     file_len = strlen(file);
+    if (file_len == 0)
+	return (0);
     path = getenv("PATH");
-    path += strspn(path, COLON);
-    while (*path != 0) {
+    if (path == NULL)
+	path = DEFAULT_PATH;
+    for (;;) {
 	path_len = strcspn(path, COLON);
 	if (path_len + file_len + 2 > PATH_MAX) {
 	    MONITOR_DEBUG("path length %d exceeds PATH_MAX %d\n",
 			  path_len + file_len + 2, PATH_MAX);
 	}
-	memcpy(buf, path, path_len);
-	buf[path_len] = SLASH;
-	memcpy(&buf[path_len + 1], file, file_len);
-	buf[path_len + 1 + file_len] = 0;
-	if (access(buf, X_OK) == 0)
-	    return (1);
-	path += path_len;
-	path += strspn(path, COLON);
+	else {
+	    memcpy(buf, path, path_len);
+	    len = path_len;
+	    if (len > 0)
+		buf[len++] = SLASH;
+	    memcpy(&buf[len], file, file_len);
+	    buf[len + file_len] = 0;
+	    if (access(buf, X_OK) == 0)
+		return (1);
+	}
+	if (path[path_len] == 0)
+	    break;
+	path += path_len + 1;
     }
 
     return (0);
-- 
2.43.0


From 4eefe1ae825ae63ef1911ca3a3990d7a91d66835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 16/32] fix: allow an empty argument list in execl, execlp and
 execle

---
 src/fork.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index 04ad8d8..311513d 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -218,9 +218,10 @@ monitor_copy_va_args(char ***argv, char ***envp,
     /*
      * Include the terminating NULL in the argv array.
      */
-    (*argv)[0] = (char *)first_arg;
+    arg = (char *)first_arg;
+    (*argv)[0] = arg;
     argc = 1;
-    do {
+    while (arg != NULL) {
 	arg = va_arg(arglist, char *);
 	if (argc >= size) {
 	    size *= 2;
@@ -233,7 +234,7 @@ monitor_copy_va_args(char ***argv, char ***envp,
 	    *argv = new_argv;
 	}
 	(*argv)[argc++] = arg;
-    } while (arg != NULL);
+    }
 
     if (envp != NULL) {
 	*envp = va_arg(arglist, char **);
-- 
2.43.0


From cab6ce56adb8790f52bf3f613171b36e16206b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 17/32] fix: remove only LD_PRELOAD from the environment of an
 unmonitored program

---
 src/fork.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fork.c b/src/fork.c
index 311513d..019da6a 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -188,7 +188,7 @@ monitor_copy_environ(char *const oldenv[])
     /* Copy old environ and omit LD_PRELOAD. */
     n = 0;
     for (k = 0; oldenv[k] != NULL; k++) {
-	if (strstr(oldenv[k], "LD_PRELOAD") == NULL) {
+	if (strncmp(oldenv[k], "LD_PRELOAD=", 11) != 0) {
 	    newenv[n] = oldenv[k];
 	    n++;
 	}
-- 
2.43.0


From 35d29e35c8c55e8604ecbb4222041bd28d86c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:14 +0000
Subject: [PATCH 18/32] fix: raise SIGSEGV, SIGBUS and SIGILL again if they do
 not come from a fault

With the default action, the handler returned after the exit callbacks
and relied on the instruction to fault again.  A signal from kill() or
raise() does not repeat, so the process went on running.
---
 src/signal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index cfebacd..8a578bf 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -257,8 +257,8 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 	sigemptyset(&action.sa_mask);
 	(*real_sigaction)(sig, &action, NULL);
 	(*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
-	if (mse->mse_noraise) {
-	    /* For segv, etc, we just return. */
+	if (mse->mse_noraise && info != NULL && info->si_code > 0) {
+	    /* For segv, etc, from a fault, we just return. */
 	    return;
 	}
 	raise(sig);
-- 
2.43.0


From d7fc3a3d8318251f5abc22643a4950850b4eb83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:14 +0000
Subject: [PATCH 19/32] fix: do not choose a shootdown signal that the system
 reserves

MONITOR_SHOOTDOWN_SIGNAL (or the configured signal) could name a signal
of the threads library.  Sigaction then failed in process exit and
monitor ended the process with an error.
---
 src/signal.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/signal.c b/src/signal.c
index 8a578bf..e34f537 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -312,6 +312,18 @@ monitor_signal_init(void)
 	}
     }
 
+    /*
+     * Find the signals that the system doesn't let us use (for example,
+     * 32 and 33) before choosing the shootdown signal.
+     */
+    for (sig = 1; sig < MONITOR_NSIG; sig++) {
+	mse = &monitor_signal_array[sig];
+	if (!mse->mse_avoid
+	    && (*real_sigaction)(sig, NULL, &mse->mse_appl_act) != 0) {
+	    mse->mse_invalid = 1;
+	}
+    }
+
     monitor_choose_shootdown_early();
     monitor_signal_array[shootdown_signal].mse_keep_open = 1;
 
-- 
2.43.0


From f74514c9b77d6a83bf9612de4e5a6c7e9de496db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:14 +0000
Subject: [PATCH 20/32] fix: do not return a repeated shootdown signal from
 sigwait

Process exit sends the signal until the thread has responded, so a
thread in sigwait may get it again after its fini-thread callback.
---
 src/pthread.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 33b1f1b..fce2dd4 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1321,17 +1321,19 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
     }
 
     /*
-     * End of process shootdown signal.
+     * End of process shootdown signal.  This may come more than once.
      */
     tn = monitor_get_tn();
     if (sig == shootdown_signal
 	&& monitor_in_exit_cleanup
-	&& !monitor_fini_thread_done
 	&& tn != NULL
-	&& tn->tn_appl_started
-	&& !tn->tn_block_shootdown
-	&& compare_and_swap(&tn->tn_fini_started, 0, 1) == 0)
+	&& tn->tn_appl_started)
     {
+	if (monitor_fini_thread_done
+	    || tn->tn_block_shootdown
+	    || compare_and_swap(&tn->tn_fini_started, 0, 1) != 0) {
+	    return 1;
+	}
 	(*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
 	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		      tn->tn_user_data, tn->tn_tid);
-- 
2.43.0


From b2040f334ab5b36da120fd99eeb023499962f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:14 +0000
Subject: [PATCH 21/32] fix: restart sigtimedwait with the remaining time

Each restart used the full timeout again, so an application whose client
uses a periodic signal might never see its timeout.
---
 src/pthread.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index fce2dd4..17d5066 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -68,6 +68,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
 #include <ucontext.h>
 #include <unistd.h>
 
@@ -1427,6 +1428,8 @@ MONITOR_WRAP_NAME(sigtimedwait)(const sigset_t *set, siginfo_t *info,
 {
     char buf[MONITOR_SIG_BUF_SIZE];
     siginfo_t my_info, *info_ptr;
+    struct timespec start, now, left;
+    const struct timespec *time_left;
     ucontext_t context;
     int ret, save_errno;
 
@@ -1436,17 +1439,38 @@ MONITOR_WRAP_NAME(sigtimedwait)(const sigset_t *set, siginfo_t *info,
 	MONITOR_DEBUG("waiting on:%s\n", buf);
     }
 
-    /*
-     * FIXME: if we restart sigtimedwait(), then we should subtract
-     * the elapsed time from the timeout.
-     */
     getcontext(&context);
     info_ptr = (info != NULL) ? info : &my_info;
-    do {
-	ret = real_sigtimedwait(set, info_ptr, timeout);
+    clock_gettime(CLOCK_MONOTONIC, &start);
+    time_left = timeout;
+    for (;;) {
+	ret = real_sigtimedwait(set, info_ptr, time_left);
 	save_errno = errno;
+	if (! monitor_sigwait_helper(set, ret, save_errno, info_ptr, &context)) {
+	    break;
+	}
+	/*
+	 * Restart with what is left of the timeout.
+	 */
+	if (timeout != NULL) {
+	    clock_gettime(CLOCK_MONOTONIC, &now);
+	    left.tv_sec = timeout->tv_sec - (now.tv_sec - start.tv_sec);
+	    left.tv_nsec = timeout->tv_nsec - (now.tv_nsec - start.tv_nsec);
+	    if (left.tv_nsec < 0) {
+		left.tv_sec -= 1;
+		left.tv_nsec += 1000000000;
+	    }
+	    else if (left.tv_nsec >= 1000000000) {
+		left.tv_sec += 1;
+		left.tv_nsec -= 1000000000;
+	    }
+	    if (left.tv_sec < 0) {
+		left.tv_sec = 0;
+		left.tv_nsec = 0;
+	    }
+	    time_left = &left;
+	}
     }
-    while (monitor_sigwait_helper(set, ret, save_errno, info_ptr, &context));
 
     errno = save_errno;
     return ret;
-- 
2.43.0


From ebbc7d22fc084ddac4c2528b362300aa901d5d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:49 +0000
Subject: [PATCH 22/32] fix: set the MPI size and rank from one thread only

---
 src/mpi.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 0888f6c..9ea6149 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -40,6 +40,7 @@
  */
 
 #include "config.h"
+#include "atomic.h"
 #include "common.h"
 #include "monitor.h"
 
@@ -88,13 +89,12 @@ monitor_mpi_fini_count(int inc)
 void
 monitor_set_size_rank(int size, int rank)
 {
-    static int first = 1;
+    static volatile long first = 1;
 
-    if (first) {
+    if (compare_and_swap(&first, 1, 0) == 1) {
 	MONITOR_DEBUG("setting size = %d, rank = %d\n", size, rank);
 	mpi_size = size;
 	mpi_rank = rank;
-	first = 0;
     }
 }
 
-- 
2.43.0


From f1bb4899ae7cd8e46aa29ba63ee2021b80a86971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:00 +0000
Subject: [PATCH 23/32] fix: wrap _Exit when linking statically

---
 configure    | 2 +-
 configure.ac | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/configure b/configure
index d61e8a1..8681949 100755
--- a/configure
+++ b/configure
@@ -13210,7 +13210,7 @@ ac_link='$CC -o conftest$ac_exeext $CFLAGS $CPPFLAGS $LDFLAGS conftest.$ac_ext $
 ac_compiler_gnu=$ac_cv_c_compiler_gnu
 
 
-wrap_list="main exit _exit"
+wrap_list="main exit _exit _Exit"
 
 
 #------------------------------------------------------------
diff --git a/configure.ac b/configure.ac
index 48a5592..a0b7ec1 100644
--- a/configure.ac
+++ b/configure.ac
@@ -71,7 +71,7 @@ AC_CANONICAL_HOST
 
 AC_LANG([C])
 
-AC_SUBST([wrap_list], ["main exit _exit"])
+AC_SUBST([wrap_list], ["main exit _exit _Exit"])
 
 #------------------------------------------------------------
 # SVN Revision
-- 
2.43.0


From f29f1aee28e475530ee0993f2baaea705509b151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:23 +0000
Subject: [PATCH 24/32] fix: let a thread that waits for process exit in a
 signal handler get its fini-thread callback

---
 src/main.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.c b/src/main.c
index a344989..a6c3a90 100644
--- a/src/main.c
+++ b/src/main.c
@@ -336,6 +336,17 @@ monitor_end_process_fcn(int how)
 	if (tn != NULL && tn->tn_fini_started) {
 	    tn->tn_fini_done = 1;
 	}
+#ifdef MONITOR_USE_SIGNALS
+	/*
+	 * If we got here from a signal handler, then the shootdown
+	 * signal is blocked, but this thread won't return and it
+	 * still needs its fini-thread callback.
+	 */
+	sigset_t set;
+	sigemptyset(&set);
+	sigaddset(&set, monitor_shootdown_signal());
+	(*real_sigprocmask)(SIG_UNBLOCK, &set, NULL);
+#endif
 	MONITOR_DEBUG("delay second thread trying to exit (how = %d)\n", how);
 	while (! monitor_fini_process_done) {
 	    usleep(MONITOR_POLL_USLEEP_TIME);
-- 
2.43.0


From 6fcc0cc9bc2205d9f8c85fd0c2d89d203690d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:59 +0000
Subject: [PATCH 25/32] fix: keep errno of a failed fork, exec or system across
 callbacks and messages

---
 src/fork.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index 019da6a..2fbe7f0 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -322,12 +322,14 @@ monitor_fork(void)
 {
     void *user_data;
     pid_t ret;
+    int save_errno;
 
     monitor_fork_init();
     MONITOR_DEBUG1("calling monitor_pre_fork() ...\n");
     user_data = monitor_pre_fork();
 
     ret = (*real_fork)();
+    save_errno = errno;
     if (ret != 0) {
 	/* Parent process. */
 	if (ret < 0) {
@@ -343,6 +345,7 @@ monitor_fork(void)
 	monitor_begin_process_fcn(user_data, TRUE);
     }
 
+    errno = save_errno;
     return (ret);
 }
 
@@ -369,7 +372,7 @@ MONITOR_WRAP_NAME(vfork)(void)
 static int
 monitor_execv(const char *path, char *const argv[])
 {
-    int ret, is_exec;
+    int ret, is_exec, save_errno;
 
     monitor_fork_init();
     is_exec = access(path, X_OK) == 0;
@@ -383,12 +386,14 @@ monitor_execv(const char *path, char *const argv[])
 #endif
     }
     ret = (*real_execv)(path, argv);
+    save_errno = errno;
 
     /* We only get here if real_execv fails. */
     if (is_exec) {
 	MONITOR_WARN("unexpected execv failure on pid: %d\n",
 		     (int)getpid());
     }
+    errno = save_errno;
     return (ret);
 }
 
@@ -398,7 +403,7 @@ monitor_execv(const char *path, char *const argv[])
 static int
 monitor_execvp(const char *file, char *const argv[])
 {
-    int ret, is_exec;
+    int ret, is_exec, save_errno;
 
     monitor_fork_init();
     is_exec = monitor_is_executable(file);
@@ -412,12 +417,14 @@ monitor_execvp(const char *file, char *const argv[])
 #endif
     }
     ret = (*real_execvp)(file, argv);
+    save_errno = errno;
 
     /* We only get here if real_execvp fails. */
     if (is_exec) {
 	MONITOR_WARN("unexpected execvp failure on pid: %d\n",
 		     (int)getpid());
     }
+    errno = save_errno;
     return (ret);
 }
 
@@ -427,7 +434,7 @@ monitor_execvp(const char *file, char *const argv[])
 static int
 monitor_execve(const char *path, char *const argv[], char *const envp[])
 {
-    int ret, is_exec;
+    int ret, is_exec, save_errno;
 
     monitor_fork_init();
     is_exec = access(path, X_OK) == 0;
@@ -441,12 +448,14 @@ monitor_execve(const char *path, char *const argv[], char *const envp[])
 #endif
     }
     ret = (*real_execve)(path, argv, envp);
+    save_errno = errno;
 
     /* We only get here if real_execve fails. */
     if (is_exec) {
 	MONITOR_WARN("unexpected execve failure on pid: %d\n",
 		     (int)getpid());
     }
+    errno = save_errno;
     return (ret);
 }
 
@@ -543,7 +552,7 @@ monitor_system(const char *command, int callback)
     char *arglist[4];
     char *who;
     pid_t pid;
-    int status;
+    int status, save_errno;
 
     monitor_fork_init();
     who = (callback ? "appl" : "client");
@@ -574,6 +583,7 @@ monitor_system(const char *command, int callback)
     (*real_sigprocmask)(SIG_BLOCK, &sigchld_set, &old_set);
 
     pid = (*real_fork)();
+    save_errno = errno;
     if (pid < 0) {
 	/* Fork failed. */
 	MONITOR_DEBUG("(%s) real fork failed\n", who);
@@ -599,6 +609,7 @@ monitor_system(const char *command, int callback)
 	while (waitpid(pid, &status, 0) < 0) {
 	    if (errno != EINTR) {
 		status = -1;
+		save_errno = errno;
 		break;
 	    }
 	}
@@ -613,6 +624,7 @@ monitor_system(const char *command, int callback)
     }
 
     MONITOR_DEBUG("(%s) status = %d\n", who, status);
+    errno = save_errno;
     return (status);
 }
 
-- 
2.43.0


From f37f0fd136f6b31b6afcceadb1cde9a760f31c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:52 +0000
Subject: [PATCH 26/32] fix: no dlopen and dlclose callbacks for monitor's own
 symbol search

---
 src/common.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/common.c b/src/common.c
index 43f2ace..8ac311f 100644
--- a/src/common.c
+++ b/src/common.c
@@ -43,8 +43,13 @@
 #include <link.h>
 #include <stdbool.h>
 
+typedef void *dlopen_fcn_t(const char *, int);
+typedef int dlclose_fcn_t(void *);
+
 struct callback_data {
     const char* symbol;
+    dlopen_fcn_t *real_dlopen;
+    dlclose_fcn_t *real_dlclose;
     bool skip;
     void *skip_until_base;
     void *result;
@@ -61,8 +66,9 @@ static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
         return 0;
     }
 
-    // Call dlopen to stabilize a handle for our use
-    void *this = dlopen(info->dlpi_name, RTLD_LAZY | RTLD_NOLOAD | RTLD_LOCAL);
+    // Call dlopen to stabilize a handle for our use. Use the real dlopen, or
+    // else this would give the client dlopen callbacks.
+    void *this = (*data->real_dlopen)(info->dlpi_name, RTLD_LAZY | RTLD_NOLOAD | RTLD_LOCAL);
     if (this == NULL) {
         MONITOR_DEBUG("dlopen failed on object: %s\n", info->dlpi_name);
         return 0;
@@ -71,7 +77,7 @@ static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
     // Poke it and see if we can find the symbol we want. Stop if we found it,
     // otherwise continue the scan.
     data->result = dlsym(this, data->symbol);
-    dlclose(this);
+    (*data->real_dlclose)(this);
     return data->result == NULL ? 0 : 1;
 }
 
@@ -87,6 +93,8 @@ void *monitor_dlsym(const char *symbol) {
 
         struct callback_data cb_data = {
             .symbol = symbol,
+            .real_dlopen = dlsym(RTLD_NEXT, "dlopen"),
+            .real_dlclose = dlsym(RTLD_NEXT, "dlclose"),
             .skip = true,
             .skip_until_base = NULL,
             .result = NULL,
-- 
2.43.0


From bac4a97ddc080cbbfa88fcae55491d7f68bb38a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:51 +0000
Subject: [PATCH 27/32] fix: do not take monitor's own override for the real
 function

---
 src/common.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 8ac311f..a7a07ab 100644
--- a/src/common.c
+++ b/src/common.c
@@ -54,6 +54,22 @@ struct callback_data {
     void *skip_until_base;
     void *result;
 };
+
+// Whether addr is inside one of the object's segments
+static bool in_object(struct dl_phdr_info *info, void *addr) {
+    int i;
+
+    for (i = 0; i < info->dlpi_phnum; i++) {
+        const ElfW(Phdr) *ph = &info->dlpi_phdr[i];
+        ElfW(Addr) start = info->dlpi_addr + ph->p_vaddr;
+        if (ph->p_type == PT_LOAD && start <= (ElfW(Addr))addr
+            && (ElfW(Addr))addr < start + ph->p_memsz) {
+            return true;
+        }
+    }
+    return false;
+}
+
 static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
     struct callback_data *data = data_v;
 
@@ -75,8 +91,12 @@ static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
     }
 
     // Poke it and see if we can find the symbol we want. Stop if we found it,
-    // otherwise continue the scan.
+    // otherwise continue the scan. Dlsym also looks in the dependencies of the
+    // object, and those may include libmonitor itself or one before it.
     data->result = dlsym(this, data->symbol);
+    if (data->result != NULL && !in_object(info, data->result)) {
+        data->result = NULL;
+    }
     (*data->real_dlclose)(this);
     return data->result == NULL ? 0 : 1;
 }
-- 
2.43.0


From bd23e6bccbcb41bcbf1b85b7e521765e130f5d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:08 +0000
Subject: [PATCH 28/32] fix: link and run threaded programs when configured
 without signals

---
 src/main.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main.c b/src/main.c
index a6c3a90..41df3ed 100644
--- a/src/main.c
+++ b/src/main.c
@@ -784,6 +784,18 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
     return;
 }
 
+int __attribute__ ((weak))
+monitor_shootdown_signal(void)
+{
+    return (SIGRTMIN + 8);
+}
+
+int __attribute__ ((weak))
+monitor_sigwait_handler(int sig, siginfo_t *info, void *context)
+{
+    return (1);
+}
+
 #if 0
 void __attribute__ ((weak))
 monitor_thread_release(void)
-- 
2.43.0


From 815a3247babd83aac5829815631f82dfcf1ac8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:08 +0000
Subject: [PATCH 29/32] fix: link fork and system statically when configured
 without signals

---
 src/fork.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fork.c b/src/fork.c
index 2fbe7f0..63d1500 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -131,8 +131,13 @@ monitor_fork_init(void)
     MONITOR_GET_REAL_NAME_WRAP(real_execv, execv);
     MONITOR_GET_REAL_NAME_WRAP(real_execvp, execvp);
     MONITOR_GET_REAL_NAME_WRAP(real_execve, execve);
+#ifdef MONITOR_USE_SIGNALS
     MONITOR_GET_REAL_NAME_WRAP(real_sigaction, sigaction);
     MONITOR_GET_REAL_NAME_WRAP(real_sigprocmask, sigprocmask);
+#else
+    MONITOR_GET_REAL_NAME(real_sigaction, sigaction);
+    MONITOR_GET_REAL_NAME(real_sigprocmask, sigprocmask);
+#endif
     MONITOR_GET_REAL_NAME_WRAP(real_system, system);
 
     override_system = (getenv(NO_SYSTEM_OVERRIDE) == NULL);
-- 
2.43.0


From 290579900c75788e917d922c6884cc0726c6bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:40 +0000
Subject: [PATCH 30/32] fix: restore SIGINT and SIGQUIT when several threads
 call system

The first thread in system() saves and ignores the actions of SIGINT
and SIGQUIT and the last one restores them.  Before, two overlapping
calls left both signals ignored for the rest of the process, or not
ignored while a command was running.
---
 src/fork.c | 61 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index 63d1500..33e7b36 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -64,6 +64,7 @@
 
 #include "common.h"
 #include "monitor.h"
+#include "atomic.h"
 
 extern char **environ;
 
@@ -548,10 +549,56 @@ MONITOR_WRAP_NAME(execve)(const char *path, char *const argv[],
  *  syscall for fork, thus bypassing our override.
  */
 #define SHELL  "/bin/sh"
+
+/*
+ *  The actions for SIGINT and SIGQUIT belong to the whole process, so
+ *  if several threads are in system(), then the first one saves them
+ *  and the last one restores them.
+ *
+ *  The lock is the pid of the process that holds it, so that the child
+ *  of a fork() in another thread doesn't wait for it.
+ */
+static volatile long system_lock = 0;
+static long system_pid = 0;
+static int  system_count = 0;
+static struct sigaction system_old_int, system_old_quit;
+
+static void
+monitor_system_signals(int begin)
+{
+    struct sigaction ign_act;
+    sigset_t all_set, cur_set;
+    long pid, prev;
+
+    sigfillset(&all_set);
+    (*real_sigprocmask)(SIG_BLOCK, &all_set, &cur_set);
+    pid = getpid();
+    while ((prev = compare_and_swap(&system_lock, 0, pid)) != 0) {
+	if (prev != pid) {
+	    compare_and_swap(&system_lock, prev, 0);
+	}
+    }
+    if (system_pid != pid) {
+	system_pid = pid;
+	system_count = 0;
+    }
+    if (begin && system_count++ == 0) {
+	memset(&ign_act, 0, sizeof(struct sigaction));
+	ign_act.sa_handler = SIG_IGN;
+	(*real_sigaction)(SIGINT, &ign_act, &system_old_int);
+	(*real_sigaction)(SIGQUIT, &ign_act, &system_old_quit);
+    }
+    if (!begin && --system_count == 0) {
+	(*real_sigaction)(SIGINT, &system_old_int, NULL);
+	(*real_sigaction)(SIGQUIT, &system_old_quit, NULL);
+    }
+    compare_and_swap(&system_lock, pid, 0);
+    (*real_sigprocmask)(SIG_SETMASK, &cur_set, NULL);
+}
+
 static int
 monitor_system(const char *command, int callback)
 {
-    struct sigaction ign_act, old_int, old_quit;
     sigset_t sigchld_set, old_set;
     void *user_data = NULL;
     char *arglist[4];
@@ -574,8 +621,6 @@ monitor_system(const char *command, int callback)
     /*
      * Ignore SIGINT and SIGQUIT, and block SIGCHLD.
      */
-    memset(&ign_act, 0, sizeof(struct sigaction));
-    ign_act.sa_handler = SIG_IGN;
     sigemptyset(&sigchld_set);
     sigaddset(&sigchld_set, SIGCHLD);
 
@@ -583,8 +628,7 @@ monitor_system(const char *command, int callback)
 	MONITOR_DEBUG("(%s) calling monitor_pre_fork() ...\n", who);
 	user_data = monitor_pre_fork();
     }
-    (*real_sigaction)(SIGINT, &ign_act, &old_int);
-    (*real_sigaction)(SIGQUIT, &ign_act, &old_quit);
+    monitor_system_signals(TRUE);
     (*real_sigprocmask)(SIG_BLOCK, &sigchld_set, &old_set);
 
     pid = (*real_fork)();
@@ -598,8 +642,8 @@ monitor_system(const char *command, int callback)
 	/* Child process. */
 	MONITOR_DEBUG("(%s) child process about to exec, parent = %d\n",
 		      who, getppid());
-	(*real_sigaction)(SIGINT, &old_int, NULL);
-	(*real_sigaction)(SIGQUIT, &old_quit, NULL);
+	(*real_sigaction)(SIGINT, &system_old_int, NULL);
+	(*real_sigaction)(SIGQUIT, &system_old_quit, NULL);
 	(*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
 	arglist[0] = SHELL;
 	arglist[1] = "-c";
@@ -619,8 +663,7 @@ monitor_system(const char *command, int callback)
 	    }
 	}
     }
-    (*real_sigaction)(SIGINT, &old_int, NULL);
-    (*real_sigaction)(SIGQUIT, &old_quit, NULL);
+    monitor_system_signals(FALSE);
     (*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
 
     if (callback) {
-- 
2.43.0


From e495e9f2b505fa7c092198af84446698ada8fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:55 +0000
Subject: [PATCH 31/32] fix: keep new threads disabled when that is done before
 initialization

The first entry into monitor cleared main's thread node again, so a
client that disables new threads in monitor_start_main_init() got the
thread callbacks all the same.  The node is static and starts as zero.
---
 src/main.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 41df3ed..1a46d99 100644
--- a/src/main.c
+++ b/src/main.c
@@ -177,7 +177,6 @@ monitor_early_init(void)
     }
     MONITOR_DEBUG1("\n");
 
-    memset(&monitor_main_tn, 0, sizeof(struct monitor_thread_node));
     monitor_main_tn.tn_magic = MONITOR_TN_MAGIC;
     monitor_main_tn.tn_tid = 0;
     monitor_main_tn.tn_is_main = 1;
-- 
2.43.0


From 0ba9b6765cdd21d0111e2ced46ee584d41137549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:39 +0000
Subject: [PATCH 32/32] fix: don't share the environment array between threads
 in monitor_real_execve

---
 src/fork.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index 33e7b36..547c047 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -109,8 +109,6 @@ static sigprocmask_fcn_t  *real_sigprocmask = NULL;
 static system_fcn_t  *real_system = NULL;
 static malloc_fcn_t  *real_malloc = NULL;
 
-static char *newenv_array[MONITOR_INIT_ENVIRON_SIZE];
-
 static int override_system = 1;
 
 /*
@@ -155,11 +153,13 @@ monitor_fork_init(void)
  *  bash, unsetenv() doesn't seem to change environ (why!?).  Also,
  *  copying environ is safer than modifying it in place if environ is
  *  somehow read-only.
+ *
+ *  The caller provides the array "newenv" with MONITOR_INIT_ENVIRON_SIZE
+ *  entries, so that two threads don't share it.
  */
 static char **
-monitor_copy_environ(char *const oldenv[])
+monitor_copy_environ(char *const oldenv[], char **newenv)
 {
-    char **newenv = &newenv_array[0];
     size_t pagesize = MONITOR_DEFAULT_PAGESIZE;
     size_t size;
     int k, n, prot, flags;
@@ -601,6 +601,7 @@ monitor_system(const char *command, int callback)
 {
     sigset_t sigchld_set, old_set;
     void *user_data = NULL;
+    char *newenv[MONITOR_INIT_ENVIRON_SIZE];
     char *arglist[4];
     char *who;
     pid_t pid;
@@ -650,7 +651,7 @@ monitor_system(const char *command, int callback)
 	arglist[2] = (char *)command;
 	arglist[3] = NULL;
 	(*real_execve)(SHELL, arglist,
-		       callback ? environ : monitor_copy_environ(environ));
+		       callback ? environ : monitor_copy_environ(environ, newenv));
 	monitor_real_exit(127);
     }
     else {
@@ -707,6 +708,8 @@ MONITOR_WRAP_NAME(system)(const char *command)
 int
 monitor_real_execve(const char *path, char *const argv[], char *const envp[])
 {
+    char *newenv[MONITOR_INIT_ENVIRON_SIZE];
+
     monitor_fork_init();
     MONITOR_DEBUG("command = %s\n", path);
 
@@ -717,7 +720,7 @@ monitor_real_execve(const char *path, char *const argv[], char *const envp[])
 	return -1;
     }
 
-    return (*real_execve)(path, argv, monitor_copy_environ(envp));
+    return (*real_execve)(path, argv, monitor_copy_environ(envp, newenv));
 }
 
 /*
-- 
2.43.0

