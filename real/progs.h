// Programs that run both in the simulator and on the real system. One letter per step:
//  cX  create a thread with body X: r returns, x pthread_exit, p pauses for ever, e exit(5), u _exit(6), k raise(SIGTERM),
//      n creates a thread that returns and joins it, h handles SIGUSR2, w sigwait for ever, z blocks every signal and pauses,
//      f forks and the child returns
//  iX  the same, ignored (monitor_disable_new_threads)
//  j   join the last thread     y   wait until the last thread runs its start routine
//  fX  fork; the child does X: e exit(9), u _exit(9), c creates and joins a thread then exit(9), x exec, k raise(SIGTERM), r returns from main; the parent waits
//  vX  the same with vfork
//  g   fork with monitor_real_fork, the child does _exit(9)
//  s   system("exit 3")   S system(NULL)   o dlopen(NULL) and dlclose
//  q   handle SIGUSR2 and raise it   Q the same with a client handler that passes it on, N one that does not
//  t   SIGTSTP would stop: not used   G raise SIGURG (ignored by default)
//  m   block SIGUSR2, raise it, unblock it   W sigtimedwait for a pending SIGUSR2
//  B   broadcast SIGUSR2 (handled)  D a key destructor (for later threads)
// ends: E exit(3) U _exit(4) V _Exit(4) R return 2 P pthread_exit X exec F a fault K raise(SIGTERM) A abort
static const char *PROGS[] = {
  "E", "U", "V", "R", "P", "X", "F", "K", "A",
  "crjE", "crjU", "crjR", "crjP", "cxjE", "cxjR", "cnjR", "crjcrjcxjE",
  "cpyE", "cpyU", "cpyV", "cpyR", "cpyX", "cpyF", "cpyK", "cpycpyE", "cpycpycpyR",
  "cejR", "cujR", "ckjR", "cpycejR", "cpycujR", "cpyckjR",
  "irjE", "ipyE", "ipycpyR", "iejR", "ixjU",
  "cwyE", "cwyK", "czyE", "cpyczyR",
  "feE", "fuE", "fcE", "fxE", "fkE", "frE", "veE", "vuU", "gE", "gR", "cpyfeE", "cpyfcR", "crjfcE", "cfjE", "cpycfjR", "fefuE",
  "sE", "ssR", "SE", "oE", "crjoR", "cpysE",
  "qE", "QE", "NE", "GE", "mE", "WE", "chjE", "cpyBE", "DcrjE", "DcxjR",
};
