#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


p("C01", "Exit callbacks run exactly once, in order, before the process ends",
  "In every process that ends by returning from main, exit, _exit, _Exit, pthread_exit in the main thread, a fatal signal or an exec of an executable file, with any number of threads ending it at once, the client gets monitor_begin_process_exit and then monitor_fini_process exactly once each, both with the reason (normal, signal, exec) of the thread that started the exit first, and monitor_fini_process with the value monitor_init_process returned. "
  "No thread goes on to the system's exit, exec or fatal signal until monitor_fini_process has returned, except that a thread that has started process exit and starts it again (exit from inside those callbacks, or a fatal signal that strikes it) goes on at once without getting them again. "
  "The exit status or signal the application asked for is the one the system gets. exit ends in the system's exit, which runs the exit handlers; _exit and _Exit end in the system's _exit, which does not.",
  ["schedules", "histories"],
  "all interleavings of up to 3 threads ending the process by every combination of means, including re-entry from the callbacks and from exit handlers",
  "the tests let threads race to exit once on a wall clock and count debug lines; they reach a handful of schedules and never re-entry, _Exit or exec racing with exit",
  ["src/main.c", "src/fork.c", "src/signal.c", "src/pthread.c"],
  [("compare-and-swap on an end-of-process cookie, losers wait", "src/main.c: monitor_end_process_fcn"),
   ("overrides of exit, _exit, _Exit, pthread_exit, exec*", "src/main.c, src/pthread.c, src/fork.c")],
  [("monitor_end_process_cookie", "set by the first thread that starts process exit", "src/main.c"),
   ("monitor_fini_process_done", "releases the threads that lost the race", "src/main.c"),
   ("monitor_end_process_cookie value", "the id of the thread that runs the exit, so that its re-entry is let through", "src/main.c")],
  ["monitor_begin_process_exit, monitor_fini_process callbacks", "calls of the real exit/_exit/exec*"])

p("C02", "Every application thread gets exactly one init and one fini callback",
  "Under every schedule, monitor_init_thread runs exactly once in each monitored thread before its start routine, and monitor_fini_thread exactly once in that same thread when it returns, calls pthread_exit or is canceled in its start routine, never before the init callback has returned and never twice, even when process exit starts at that moment. A thread that ends with the client's shootdown block set, or that a fatal signal strikes while it is ending, is exempt from the fini callback. Once monitor_block_shootdown has returned, no fini callback begins in that thread before it unblocks it or itself ends the process, nor has one begun before if it returned 0, as it does until process exit begins. "
  "At process exit, every thread that was running application code when monitor_begin_process_exit returned and does not keep the notification blocked until the timeout completes its fini callback before monitor_fini_process begins, unless exit gives up on another thread that does not respond; the main thread gets a fini-thread callback exactly when another thread started the exit. A thread of a process that had other threads when it began to exit gets no fini-thread callback if it begins to end, or is first notified, only after monitor_fini_process began. "
  "A thread whose creation is overtaken by process exit either gets the init callback and starts, or gets no callback and its start routine never runs (always the latter if, in a process that had other threads when it began to exit, it is created after monitor_fini_process began).",
  ["schedules", "histories"],
  "all interleavings of thread start, end (return, pthread_exit, cancel), and process exit from main or from a side thread",
  "the windows are a few instructions wide (signal between test and set of a flag, exit between link and start); the tests sample wall-clock schedules",
  ["src/pthread.c", "src/main.c"],
  [("cleanup handler pushed around the start routine", "src/pthread.c: monitor_begin_thread, monitor_pthread_cleanup_routine"),
   ("shootdown: signal every unfinished thread and wait", "src/pthread.c: monitor_thread_shootdown, monitor_shootdown_handler, monitor_sigwait_helper")],
  [("tn_appl_started / tn_fini_started / tn_fini_done", "progress of one thread", "src/pthread_h.h"),
   ("monitor_in_exit_cleanup", "no more threads are linked or unlinked", "src/pthread.c"),
   ("monitor_fini_thread_done", "fini-process may begin", "src/pthread.c")],
  ["monitor_init_thread, monitor_fini_thread, monitor_fini_process callbacks"])

p("C03", "Ending a process always terminates, and waits no longer than it must",
  "Whatever the other threads are doing (computing, sleeping, in sigwait, finishing, being created or canceled, inside a callback, with the client's shootdown block set, or with every signal blocked), a process that starts to exit reaches monitor_fini_process and ends: no monitored operation deadlocks and no thread that has ended is ever signalled. "
  "Exit gives up on threads that do not respond only after about ten seconds without progress, and until then it waits for them and for clients that unblock shootdown in time; once every thread has responded it waits without limit for the fini-thread callbacks that have begun. The notification does not make a system call that the system can restart fail in an application thread.",
  ["schedules", "fault_sequences"],
  "all interleavings within the preemption bound of the exit with 1-2 other threads in every such state, with simulated time",
  "a test can show one exit that ended; it cannot show that no schedule hangs, and the timeout path takes ten seconds per try",
  ["src/pthread.c", "src/main.c", "src/spinlock.h"],
  [("polling loop with progress timeout", "src/pthread.c: monitor_thread_shootdown"),
   ("test-and-set spinlock around the thread list", "src/spinlock.h"),
   ("bounded delay of threads that lost the race to exit", "src/main.c: monitor_end_process_fcn")],
  [("monitor_thread_lock", "protects the thread list", "src/pthread.c"),
   ("tn_block_shootdown", "client asked not to be interrupted", "src/pthread_h.h")],
  ["time and order of monitor_fini_process", "targets of pthread_kill"])

p("C04", "Client data and thread identity never leak from one thread to another",
  "The value monitor_thread_pre_create returns reaches that thread's monitor_init_thread and the creator's monitor_thread_post_create, and the value monitor_init_thread returns is what monitor_get_user_data gives in that thread and what its monitor_fini_thread receives, for any number of threads created and ended in any order and schedule. "
  "Thread numbers are positive and never shared by two threads of a process, the main thread has number 0, and monitor_get_thread_num, monitor_get_user_data, monitor_stack_bottom and monitor_get_addr_thread_start describe the calling thread from its monitor_init_thread on (main: from monitor_at_main on) to the end of its monitor_fini_thread, and otherwise report an error (-1 or NULL), never another thread, also while a thread runs its key destructors after its fini callback.",
  ["schedules", "histories"],
  "all interleavings of concurrent create/start/finish/reuse of 2-3 threads, and create/finish histories across the sizes at which thread records are reallocated",
  "needs a thread to finish inside the creator's pthread_create, or a record to be reused, or more threads than a test starts",
  ["src/pthread.c", "src/main.c", "src/pthread_h.h"],
  [("thread records from a free list, a static array, then malloc", "src/pthread.c: monitor_make_thread_node, monitor_unlink_thread_node"),
   ("thread-specific data", "src/pthread.c: monitor_get_tn")],
  [("monitor_free_list, monitor_tn_array", "record pool", "src/pthread.c"),
   ("monitor_thread_num", "last thread number", "src/pthread.c")],
  ["callback arguments", "monitor_get_* results"])

p("C05", "Monitored pthread_create behaves as the system's for the application",
  "For every monitored or ignored thread the start routine gets the application's argument and its return or pthread_exit value reaches pthread_join; pthread_create returns exactly what the system call returned, and a failed creation runs nothing. "
  "The new thread gets the stack size monitor_reset_stacksize returned, or the application's own attributes if the client did not change it or setting it failed; the application's attribute object is passed on otherwise untouched and has its original stack size when pthread_create returns, on success and on failure. "
  "The creator's signal mask is unchanged by the call and the new thread starts with it. All this holds also when several threads create threads, with different start routines and attributes, at the same time.",
  ["inputs", "fault_sequences", "histories"],
  "all combinations of attribute (none, application's), client stack size (same, larger, rejected), ignored or monitored, and failure of each system call, in sequences of up to three creations",
  "tests use a NULL attribute, never change the stack size and never see a failing system call",
  ["src/pthread.c"],
  [("save and restore of the stack size", "src/pthread.c: monitor_adjust_stack_size, pthread_create override"),
   ("start routine called through the monitor's own", "src/pthread.c: monitor_begin_thread")],
  (), ["arguments of the real pthread_create and pthread_attr_*", "attribute object after the call"])

p("C06", "Thread creation callbacks bracket each creation; ignored threads get none",
  "For each monitored creation the client gets monitor_thread_pre_create once before and monitor_thread_post_create once after the system's pthread_create, in the creating thread, also when it fails, and monitor_init_thread_support once per process image, before the first of them; this holds also when a callback itself creates threads. "
  "A thread created while the creating thread has new threads disabled or by a thread that is not monitored (then without any callback for the creation), or for which pre-create returned MONITOR_IGNORE_NEW_THREAD, runs without any monitor callback, has no thread number or user data, and is never signalled at process exit. "
  "monitor_get_new_thread_info gives the start routine and caller of the current creation from the beginning to the end of that pthread_create and an error at every other time, whether the thread was monitored, ignored or failed.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences of up to four operations among create, disable, enable, ignored create and failing create, from the main and from a side thread",
  "no test disables threads, ignores one, or asks for the thread info",
  ["src/pthread.c"],
  [("early return for ignored threads", "src/pthread.c: pthread_create override"),
   ("per-thread ignore flag", "src/pthread.c: monitor_disable_new_threads")],
  [("tn_ignore_threads", "creating thread ignores new threads", "src/pthread_h.h"),
   ("tn_thread_info", "valid only inside pthread_create", "src/pthread_h.h")],
  ["callbacks", "monitor_get_new_thread_info result"])

p("C07", "fork callbacks are paired and carry the client's data to both sides",
  "Each fork or vfork calls monitor_pre_fork exactly once before the system's fork; afterwards the parent gets monitor_post_fork exactly once with the child's pid (or the error result) and pre-fork's value, and the child gets monitor_init_process exactly once, with pre-fork's value, before fork returns 0 in it. "
  "The parent never gets monitor_init_process from a fork and the child never gets monitor_post_fork; the application sees the system's result and errno. "
  "In the child, monitor_get_user_data and the later monitor_fini_process see the value the child's monitor_init_process returned. This holds also when several threads fork at the same time.",
  ["histories", "fault_sequences"],
  "all sequences of nested forks (both branches followed) to depth three, from main, from a side thread and before main, with fork failing at each place",
  "the tests fork once and never see fork fail or nest",
  ["src/fork.c", "src/main.c", "src/pthread.c"],
  [("override of fork and vfork", "src/fork.c: monitor_fork"),
   ("process start in the child", "src/main.c: monitor_begin_process_fcn")],
  (), ["callbacks in parent and child", "result of fork"])

p("C08", "A forked child is a sound single-threaded process at every fork point",
  "Whatever the other threads of the parent were doing at the instant of the fork (creating, starting, finishing, or ending the process), the child is a single-threaded monitored process: monitor_is_threaded is 0, the forking thread has number 0, keeps its stack bottom and is its main thread, and no thread of the parent is waited for, signalled or gets a callback in the child. "
  "The child can create threads, fork and exec again with all the guarantees of a fresh process, never hangs in any of these or in exit, and gets its own exit callbacks exactly once however it ends, including when its (monitored) thread returns from its start routine; only a child forked in the middle of its parent's exit that just goes on with that exit gets no exit callbacks of its own. "
  "The same single-threaded state holds in the child of monitor_real_fork.",
  ["schedules", "histories", "crash_points"],
  "every fork point within the preemption bound against 1-2 other threads in every phase, child programs of up to two further operations",
  "the tests fork only while the other threads sleep, and their child only calls exit",
  ["src/pthread.c", "src/main.c", "src/fork.c"],
  [("reset of the thread list in the child", "src/pthread.c: monitor_reset_thread_list"),
   ("reset of the process state in the child", "src/main.c: monitor_begin_process_fcn")],
  [("monitor_has_used_threads", "process has other threads", "src/pthread.c"),
   ("monitor_thread_lock", "may be held by a thread that does not exist in the child", "src/pthread.c")],
  ["callbacks and termination of the child"])

p("C09", "exec gets exactly the application's arguments, with fini when it will run",
  "Every exec function (execl, execlp, execle, execv, execvp, execve) passes the application's path, complete argument list of any length and environment to the system unchanged, exactly once, and returns the system's result and errno if it fails. "
  "If the file named (for the p variants: found by the system's PATH search, including empty PATH elements and an unset PATH) is an executable file, the process-exit callbacks run before the system call with reason MONITOR_EXIT_EXEC; if there is no such file or it is not executable, no callback runs and the process goes on being monitored (a directory of that name counts as executable). "
  "No length or content of PATH, file name or argument list corrupts memory or crashes, and calls that several threads make at the same time do not affect each other's arguments.",
  ["inputs", "histories"],
  "all six functions x file kinds x PATH shapes (unset, empty, empty elements, long elements around PATH_MAX, several directories) x argument counts around the internal sizes, and sequences of failing execs followed by exit",
  "no test calls exec",
  ["src/fork.c"],
  [("access() prediction", "src/fork.c: monitor_execv, monitor_execve, monitor_is_executable"),
   ("copy of the variable arguments", "src/fork.c: monitor_copy_va_args")],
  (), ["arguments of the real exec*", "callbacks"])

p("C10", "system() keeps its contract, with fork callbacks and a clean restore",
  "system runs the command with /bin/sh -c in the application's environment and returns its wait status, retrying interrupted waits, -1 if fork or wait fails, 127 as exit status if the shell cannot be run, and for a NULL command whether a shell is available; monitor_pre_fork and monitor_post_fork (child pid, pre-fork's value) run once each around it in the parent, none for a NULL command, and no callback runs in the child. "
  "SIGINT and SIGQUIT are ignored and SIGCHLD is blocked only while the command runs; afterwards, and in the child before the shell starts, their dispositions and the signal mask are exactly as before, on every path. "
  "This also holds when several threads call system at once, where SIGINT and SIGQUIT are ignored as long as any of their commands runs, and in the child of a fork made while another thread is in system. "
  "With MONITOR_NO_SYSTEM_OVERRIDE set the system's own function runs instead, without callbacks.",
  ["histories", "fault_sequences", "inputs", "schedules"],
  "every outcome of fork, each wait (interrupts, error, status) and exec, both branches of the fork, with each initial disposition and mask; all schedules of two or three threads in system",
  "no test calls system",
  ["src/fork.c"],
  [("reimplementation of system", "src/fork.c: monitor_system")],
  (), ["real sigaction/sigprocmask/fork/execve/waitpid calls", "dispositions and masks before and after"])

p("C11", "The application's signal actions behave as if the client were not there",
  "sigaction and signal return as the old action exactly what the application last set (or inherited), accept and reject the same signal numbers with the same errors as the system, leave the action unchanged when only queried, and never let the monitor's or client's handler show or be removed. "
  "A signal is offered first to the client's handler, once, and if there is none or it returns non-zero the application's current action is applied: nothing if ignored, else its handler called once with the signal number and, exactly when it asked for it, the siginfo and context; if the client's handler returns zero the application sees nothing. "
  "The application's flags (apart from forced restart and no reset or alternate stack) and the mask it asked for (apart from client signals, and with the shootdown signal always added) are in force while its handler runs; the same goes for an action structure the client passes to monitor_sigaction, which replaces them until the application sets its action again and is otherwise invisible to it. Signals handled in several threads at the same time do not affect each other.",
  ["histories", "inputs"],
  "all histories of up to four operations among sigaction/signal/query with each kind of handler and flags, client registration and delivery, and every signal number singly, against a reference model",
  "no test installs a handler or a client handler",
  ["src/signal.c"],
  [("one handler for all signals, table of application actions", "src/signal.c: monitor_signal_handler, monitor_appl_sigaction, monitor_sigaction")],
  [("monitor_signal_array", "per-signal application action, kernel action and client handler", "src/signal.c")],
  ["results of sigaction/signal", "handlers called", "actions given to the real sigaction"])

p("C12", "Unhandled signals keep their default effect, with exit callbacks if fatal",
  "When neither the client nor the application handles a signal, its system default happens: signals ignored by default have no effect, terminal stop signals stop the process and leave it running when continued, and every other one ends the process with that same signal, whether it came from a fault, from raise or from another process, in any thread. "
  "Before a fatal signal ends the process the client gets the process-exit callbacks with reason MONITOR_EXIT_SIGNAL (unless exit already started), and the library-fini callback; a signal the client's handler accepts, or one the application ignores, never ends the process, and no signal that leaves the process running causes such a callback.",
  ["inputs", "schedules", "histories"],
  "every catchable signal number x origin x client/application action, and fatal signals at every point of 2-thread schedules",
  "no test is ended by a signal",
  ["src/signal.c", "src/main.c"],
  [("default action emulated in the handler", "src/signal.c: monitor_signal_handler"),
   ("lists of signals by default action", "src/signal.c")],
  (), ["process end and its signal", "callbacks"])

p("C13", "The application cannot block or unblock the client's signals",
  "For every signal that is reserved for the client (by configuration or by monitor_sigaction) or used for shootdown, no call of sigprocmask or pthread_sigmask with any how and any set changes whether the calling thread blocks it. "
  "For every other signal the resulting mask is exactly what the system's function would give, the old mask returned is the thread's real previous mask, a NULL set only queries, an invalid how fails with the system's error, and the application's set is not modified; several threads can change their masks at the same time.",
  ["inputs", "histories", "configurations"],
  "all sequences of up to three mask operations over sets built from each kind of signal, with every initial mask, each registration point and client-signal configuration; every signal number singly",
  "only one test blocks signals, with one call and one set",
  ["src/signal.c", "src/pthread.c"],
  [("filter on the requested set", "src/signal.c: monitor_remove_client_signals"),
   ("overrides", "src/signal.c: sigprocmask, src/pthread.c: pthread_sigmask")],
  [("mse_keep_open", "signal reserved for the client", "src/signal.c")],
  ["arguments of the real sigprocmask/pthread_sigmask", "mask after the call"])

p("C14", "sigwait functions deliver the application's signals and only those",
  "sigwait, sigwaitinfo and sigtimedwait return the signals of the set the application waits for, in the order and with the siginfo the system gives, except those the client's handler accepts, which it gets once each with that siginfo; signals outside the set and interruptions restart the wait, and other errors are returned to the application in that function's own way with errno, as is a timeout when the time asked for has passed (in real elapsed time, whatever happens to the time-of-day clock), however often the wait was restarted and whatever other threads wait for at the same time. "
  "A NULL siginfo pointer is accepted. "
  "If process exit starts while a thread waits, it gets its fini-thread callback exactly once there and the notification is not passed to the application in place of it.",
  ["fault_sequences", "inputs", "schedules"],
  "all sequences of up to three answers of the system (signal in or out of the set, interrupt, error, timeout) x client handler behaviours x the three functions, and all interleavings with process exit",
  "one test waits in sigwait and only for the shootdown",
  ["src/pthread.c", "src/signal.c"],
  [("restart loop", "src/pthread.c: monitor_sigwait_helper and the three overrides"),
   ("client first", "src/signal.c: monitor_sigwait_handler")],
  (), ["result and errno", "client handler calls"])

p("C15", "Process start callbacks come once, in order, from any first entry",
  "Whichever comes first (start of main, pthread_create from a library constructor, or monitor_initialize), the client gets monitor_init_library once, before every process and thread callback, then monitor_init_process exactly once per process, before every thread callback, and monitor_start_main_init and monitor_at_main once each, at_main after init_process and immediately before the application's main. "
  "The application's main gets its argc, argv and environment unchanged, whatever the client does with the count it is given, and its return value becomes the exit status; monitor_init_process, once main has started, gets the same argument list, and before that an empty one. "
  "monitor_get_addr_main gives the application's main from start_main_init on. All this holds also if the client calls monitor_initialize or creates threads in these callbacks (those of init_library then come inside it).",
  ["histories", "configurations"],
  "all sequences of up to three early entries (constructor thread, monitor_initialize, fork, dlopen, sigaction, mask change) before main, preloaded and statically linked",
  "the early tests run one early call each, preloaded only, and count two callbacks",
  ["src/main.c", "src/pthread.c", "src/fork.c"],
  [("run-once guards", "src/common.h: MONITOR_RUN_ONCE, src/main.c"),
   ("start of main", "src/main.c: __libc_start_main, __wrap_main, monitor_main")],
  [("monitor_init_process_called", "first entry has been made", "src/main.c")],
  ["order of callbacks", "arguments of main"])

p("C16", "The preloaded library's init and fini callbacks come once, outermost",
  "With the preloaded library, monitor_init_library comes exactly once per process image, and monitor_fini_library at most once per process: exactly once, after monitor_fini_process has returned, however the process ends (return, exit, _exit, _Exit, exec of an executable file, fatal signal), with any number of threads ending it at once and for any time the callback takes; only if a fatal signal strikes a thread that is already ending the process, or the thread that ran the exit callbacks stalls for the two seconds it holds back the others, may the process end without it. "
  "A forked child (forked before its parent had begun to exit) that ends gets its own monitor_fini_library once even though its parent has had or will have its own.",
  ["schedules", "histories"],
  "all interleavings of up to three threads ending the process by every combination of means, slow callbacks, and forked children",
  "the tests see one end of process each and no slow callback",
  ["src/main.c", "src/fork.c", "src/signal.c"],
  [("called flags", "src/main.c: monitor_begin_library_fcn, monitor_end_library_fcn"),
   ("library destructor, and explicit calls before _exit, exec and fatal signals", "src/main.c, src/fork.c, src/signal.c")],
  [("monitor_fini_library_called", "fini-library has been given", "src/main.c")],
  ["monitor_init_library, monitor_fini_library callbacks"])

p("C17", "MPI init and finalize callbacks come once per outermost call",
  "For MPI_Init, MPI_Init_thread and MPI_Finalize in every binding (C, Fortran with zero, one or two underscores, and the PMPI names), however deeply the MPI library's implementations call each other, monitor_mpi_pre_init runs once before and monitor_init_mpi once after the outermost init, and monitor_fini_mpi once before and monitor_mpi_post_fini once after the outermost finalize. "
  "Each call reaches the function of its own name exactly once with the caller's arguments, and its result goes back to the caller; monitor_init_mpi gets the application's argument list, also from Fortran.",
  ["histories", "inputs"],
  "all nestings of the bindings up to depth three and sequences of up to three calls, preloaded and static",
  "there is no MPI test",
  ["src/mpi.c", "src/pmpi.c", "src/mpi_init_c.c", "src/mpi_init_f0.c", "src/mpi_init_thread_c.c", "src/mpi_final_c.c"],
  [("nesting counters", "src/mpi.c: monitor_mpi_init_count, monitor_mpi_fini_count"),
   ("one override per binding", "src/mpi_*_*.c, src/pmpi.c")],
  [("mpi_init_count, mpi_fini_count", "depth of nested calls", "src/mpi.c")],
  ["callbacks", "arguments and results of the real functions"])

p("C18", "MPI size and rank are set once, from the first rank query after init",
  "monitor_mpi_comm_size and monitor_mpi_comm_rank return -1 until the application's first successful MPI_Comm_rank call, in any binding, made after an MPI init has returned, and once it has returned always the size and rank of that call's communicator (of one and the same of several concurrent first calls); queries made before or inside init, and later queries on other communicators, do not change them. "
  "A value the client sets with monitor_set_size_rank first stays; the application's MPI_Comm_rank always gets its own communicator's rank and the library's result.",
  ["histories", "inputs"],
  "all sequences of up to five operations among init, rank queries on two communicators in every binding, nested queries and client setting",
  "there is no MPI test",
  ["src/mpi.c", "src/mpi_comm_c.c", "src/mpi_comm_f0.c", "src/pmpi.c"],
  [("first-time flags and init depth", "src/mpi.c: monitor_set_mpi_size_rank, monitor_set_size_rank")],
  [("mpi_size, mpi_rank", "known size and rank", "src/mpi.c")],
  ["monitor_mpi_comm_size/rank results", "results of MPI_Comm_rank"])

p("C19", "dlopen and dlclose are passed through with one callback on each side",
  "Each dlopen calls monitor_pre_dlopen with the path and flags, then the system's dlopen with the same, then monitor_dlopen with the path, flags and resulting handle, and returns that handle, also when it fails or the path is NULL; each dlclose calls monitor_dlclose with the handle, then the system's dlclose, then monitor_post_dlclose with the handle and result, and returns that result. "
  "This holds for nested calls made by library constructors or callbacks, each of which gets its own four steps. After a call that the system failed, dlerror gives the application the system's message for that failure.",
  ["histories", "inputs"],
  "all sequences of up to four opens and closes, nested to depth two, with success and failure, before and after main",
  "two tests open one library and check nothing about it",
  ["src/dlopen.c"],
  [("overrides", "src/dlopen.c")],
  (), ["callbacks and real calls in order"])

p("C20", "The shootdown signal is chosen as documented and is always usable",
  "The signal used to notify threads at process exit is the number in MONITOR_SHOOTDOWN_SIGNAL if that is a signal the process can catch whose default is not to stop it, else the configured signal under the same condition, else the first signal not reserved for the client among the middle real-time signals, then SIGUSR2, SIGUSR1, SIGPWR, SIGURG, SIGPIPE, then SIGWINCH. "
  "Whatever the environment holds (empty, not a number, out of range, uncatchable, reserved by the threads library), process exit still works and every thread gets its fini callback.",
  ["inputs", "configurations"],
  "every signal number and a set of malformed values for the environment, crossed with configured signals and reserved lists",
  "tests run with neither the variable nor the options set",
  ["src/signal.c", "src/pthread.c"],
  [("choice at init", "src/signal.c: monitor_choose_shootdown_early"),
   ("use at exit", "src/pthread.c: monitor_thread_shootdown")],
  [("shootdown_signal", "the choice", "src/signal.c, src/pthread.c")],
  ["signal passed to pthread_kill at exit"])

p("C21", "Broadcast reaches every running thread once, or fails without waiting",
  "Before process exit, monitor_broadcast_signal either returns 0 and has sent the signal exactly once to every other thread that was running its start routine throughout the call and to the main thread if it is not the caller, or returns -1 and has sent it to none, which it does only while some thread is being created, starting or ending, or another broadcast runs. "
  "It leaves the caller's signal mask as it was, and a fatal signal at any point of the call still ends the process. It never waits, even when called from a signal handler that interrupted thread creation or thread end in its own thread, never signals the calling thread, an ignored thread, a thread whose init callback has not returned, or one whose fini callback had begun before the call or that has ended, and in a process without threads returns 0 and sends nothing.",
  ["schedules", "histories"],
  "all interleavings of a broadcast from a thread or from a handler at every point with threads starting, running and finishing",
  "no test broadcasts",
  ["src/pthread.c", "src/spinlock.h"],
  [("try-lock and list walk", "src/pthread.c: monitor_broadcast_signal")],
  [("monitor_thread_list", "running threads", "src/pthread.c")],
  ["pthread_kill calls", "result"])

p("C22", "The client's real-function calls bypass monitoring",
  "monitor_real_exit, monitor_real_fork, monitor_real_execve, monitor_real_system, monitor_real_dlopen, monitor_real_dlclose, monitor_real_sigprocmask, monitor_real_pthread_sigmask and monitor_real_abort perform the system's function with the given arguments and return its result, cause no callback, and work at any time, also before the library is initialized. "
  "monitor_real_execve and monitor_real_system give the new program exactly the caller's environment without its LD_PRELOAD variable, keeping every other variable, in order, for any number and content of variables and also when several threads do so at the same time; monitor_real_sigprocmask and monitor_real_pthread_sigmask are not filtered; monitor_real_abort ends the process with SIGABRT whatever the dispositions and mask.",
  ["inputs", "histories"],
  "every function as first or later call, environments of every size around the internal limits with LD_PRELOAD in every position and look-alike names",
  "tests have no client that calls these",
  ["src/main.c", "src/fork.c", "src/dlopen.c", "src/pthread.c", "src/signal.c"],
  [("direct calls of the real functions", "src/main.c, src/fork.c, src/dlopen.c, src/signal.c"),
   ("copy of the environment", "src/fork.c: monitor_copy_environ")],
  (), ["real calls and their arguments", "absence of callbacks"])

p("C23", "Bottom-of-stack predicates identify exactly the start frames",
  "The return address of the application's main and of every monitored thread's start routine satisfies monitor_in_start_func_wide and monitor_in_start_func_narrow, main's also monitor_unwind_process_bottom_frame and a thread's also monitor_unwind_thread_bottom_frame, and not the other of those two. "
  "Every address that satisfies narrow satisfies wide, wide holds exactly where one of the two bottom-frame predicates holds, and none of them holds for an address outside the two functions that call main and the start routines; monitor_stack_bottom is an address in the caller's own bottom frame.",
  ["inputs"],
  "every code address of the built library, and addresses of the application",
  "no test uses the predicates",
  ["src/main.c", "src/pthread.c", "src/common.h"],
  [("assembler fence labels", "src/main.c: monitor_main, src/pthread.c: monitor_begin_thread")],
  (), ["results of the predicates"])

p("C24", "monitor-run and monitor-link pass the command through unchanged",
  "monitor-run runs the command with exactly the arguments after its own options (any content, spaces and empty strings included) and an LD_PRELOAD that lists the inserted files in order as absolute paths, then libmonitor, then what LD_PRELOAD held before; -d sets MONITOR_DEBUG, -- ends the options, and a missing option argument, an unknown option or a missing file is refused without running anything. "
  "monitor-link runs the compiler with exactly the user's arguments in order, before them a wrap option for each function the static library overrides and each symbol given with -w and an undefined option for the override of each symbol given with -u, and after them the inserted objects, libmonitor_wrap.a and the user's -l<name> options again (names without blanks or wildcards); both scripts return the command's exit status.",
  ["inputs"],
  "all sequences of up to four options, and argument lists of up to two arguments from an alphabet with spaces, quotes, globs, empty strings and option look-alikes",
  "the tests use one form of each script",
  ["src/monitor-run.in", "src/monitor-link.in"],
  [("option loops and final exec", "src/monitor-run.in, src/monitor-link.in")],
  (), ["argument list and environment of the command run"])

p("C25", "A client may define any subset of the callbacks, or none",
  "Whatever subset of the callbacks the client defines (none included), the program links or preloads and runs, every callback that is defined is called as if all of them were, and one that is not defined has no effect: monitor_init_process and monitor_init_thread hand on the data they are given, monitor_pre_fork and monitor_thread_pre_create give null data (and the thread is monitored), monitor_reset_stacksize leaves the size. "
  "All other properties hold unchanged, and with no callback defined the application behaves as without libmonitor: the same results, handlers run, output and end of every process.",
  ["configurations", "histories"],
  "clients that define all, none, each one or all but one of the callbacks, against processes that create threads, fork, exec, open libraries, get signals and end in every way",
  "each test has one client with its own set of callbacks",
  ["src/callback.c", "src/main.c", "src/pthread.c", "src/fork.c"],
  [("weak default callbacks", "src/callback.c"), ("use of their results", "src/main.c: monitor_begin_process_fcn, src/pthread.c: pthread_create, monitor_begin_thread, src/fork.c: monitor_fork")],
  (), ["callbacks", "results of the overridden functions", "process end"])

p("C26", "Debug output changes nothing but standard error",
  "With MONITOR_DEBUG in the environment (monitor-run -d) libmonitor writes messages to standard error and otherwise does exactly what it does without: the same callbacks with the same arguments in the same order, the same system calls, results and errno, signal handling and end of the process, whatever the messages do to errno. "
  "Not covered: a signal that arrives while a message is being written.",
  ["configurations", "schedules", "histories"],
  "every scenario family of the other properties with the variable set, compared with the runs without it",
  "the tests run without debug output",
  ["src/common.h", "src/callback.c", "src/main.c", "src/pthread.c", "src/signal.c", "src/fork.c", "src/dlopen.c"],
  [("MONITOR_DEBUG macros", "src/common.h"), ("reading the variable", "src/main.c: monitor_early_init")],
  (), ["callbacks", "results", "errno", "process end"])

p("C27", "Overrides reach the next definition of the function, wherever it is",
  "In a preloaded libmonitor the overrides of the MPI functions (every language binding), fork, pthread_create, pthread_exit, exit, _exit, execv, execve, dlopen, dlclose, sigprocmask, pthread_sigmask, sigwaitinfo and sigtimedwait pass the call on to the first definition that follows libmonitor in the global search order; if there is none, to one in an object that was loaded after libmonitor, also one loaded privately (RTLD_LOCAL) or through a private object. "
  "It is never libmonitor's own function or one of an object before it, whichever loaded objects depend on libmonitor; repeated calls reach the same one; and finding it gives the client no callback, keeps no object loaded and makes no private object's symbols global. So other tools that wrap the same functions, before or after libmonitor, see each call exactly once.",
  ["configurations"],
  "every placement and order of two definitions among preloaded, needed, globally and privately loaded objects, with an interposer before or after libmonitor and tools linked with libmonitor",
  "the tests have one link map",
  ["src/common.c", "src/common.h", "src/mpi_init_c.c", "src/mpi_init_f0.c", "src/mpi_comm_c.c", "src/mpi_final_c.c", "src/pmpi.c", "src/dlopen.c", "src/main.c", "src/fork.c", "src/pthread.c", "src/signal.c"],
  [("dlsym(RTLD_NEXT) and the scan of the loaded objects", "src/common.c: monitor_dlsym, phdr_callback")],
  (), ["which definition runs", "callbacks", "loaded objects"])

p("C28", "Every subset of the optional parts builds and works",
  "libmonitor builds with any subset of its optional parts (dlfcn, fork, mpi, pthreads, signals) enabled. A program that uses any subset of these parts of the system then runs preloaded, and links and runs with monitor-link, where the linker takes only the parts it needs: the callbacks for process, library and main are the same in every configuration, the callbacks of an enabled part that the program uses are given, those of a disabled part are not and its functions behave as without libmonitor. "
  "The functions of the client interface that belong to a missing part can still be called: monitor_is_threaded and monitor_get_thread_num are 0, monitor_get_user_data and the stack and address functions answer for the main thread, the MPI size and rank are -1, monitor_sigaction, monitor_real_dlclose and monitor_real_pthread_sigmask fail and monitor_real_dlopen gives null.",
  ["configurations"],
  "all 32 configurations, with programs that use each of the 32 sets of parts, preloaded and linked statically",
  "the tests run in one configuration and their programs use most parts",
  ["configure.ac", "src/Makefile.am", "src/main.c", "src/fork.c", "src/pthread.c", "src/signal.c", "src/dlopen.c", "src/mpi.c"],
  [("weak defaults", "src/main.c"), ("conditional compilation", "src/main.c, src/fork.c, src/common.h")],
  (), ["build and link results", "callbacks", "results of the interface functions", "process end"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
