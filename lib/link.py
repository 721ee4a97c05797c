"""C27: real link maps.  Where the definitions of a function lie (preloaded after the library, needed by the program, loaded later
globally or privately, wrapped before or after), every override must reach the right one."""
import itertools, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, real
from parts import sh

PLACES = ("none", "post", "need", "glob", "loc", "priv")
GLOBAL = ("post", "need", "glob")
BASE = {"A": 100, "B": 200}
# binding: MPI_Init, MPI_Comm_rank, MPI_Finalize, MPI_Init_thread, and what fmpi.c adds to its results; a second letter stands for init_thread
NAMES = {"c": ("MPI_Init", "MPI_Comm_rank", "MPI_Finalize", "MPI_Init_thread", 0), "p": ("PMPI_Init", "PMPI_Comm_rank", "PMPI_Finalize", "PMPI_Init_thread", 10),
         "f": ("mpi_init", "mpi_comm_rank", "mpi_finalize", "mpi_init_thread", 20), "g": ("mpi_init_", "mpi_comm_rank_", "mpi_finalize_", "mpi_init_thread_", 30),
         "h": ("mpi_init__", "mpi_comm_rank__", "mpi_finalize__", "mpi_init_thread__", 50)}
BIND = [x + y for x in "cpfgh" for y in ("", "t")]


def objects(top, mon):
    """client, stand-in MPI libraries, wrappers, and programs and plugins for every order of their needed libraries"""
    L, F = real.RDIR + "/link.c", real.RDIR + "/fmpi.c"
    cc = ["gcc", "-g", "-O1", "-w"]
    so = cc + ["-fPIC", "-shared", L]
    lib = ["-Wl,--no-as-needed", "-L" + top, "-Wl,-rpath," + top]
    first = [so + ["-DCLIENT", "-o", top + "/client.so"], so + ["-DITOR", "-o", top + "/libI.so"], so + ["-DWRAPPER", "-o", top + "/libW.so"],
             so + ["-DTOOL", "-o", top + "/libT.so", "-Wl,--no-as-needed", "-L" + mon, "-lmonitor", "-Wl,-rpath," + mon]]
    first += [cc + ["-fPIC", "-shared", F, '-DNAME="%s"' % n, "-DBASE=%d" % BASE[n], "-o", top + "/lib%s.so" % n] for n in "AB"]
    second = []
    for n in ("", "A", "B", "AB", "BA"):
        need = lib + ["-l" + x for x in n]
        second.append(so + ["-DPLUG", "-o", top + "/plug%s.so" % n] + need)
        second.append(cc + [L, "-DAPP", "-o", top + "/app" + n] + need + ["-lpthread", "-ldl"])
    with ThreadPoolExecutor(8) as ex:
        for e in list(ex.map(sh, first)) + list(ex.map(sh, second)):
            if e:
                raise RuntimeError(e)


def maps(tier):
    """every link map, as (place of A, place of B, order, interposer, tool, binding)"""
    for a, b in itertools.product(PLACES, PLACES):
        for order in (("AB", "BA") if a == b and a != "none" else ("AB",)):
            for i in ("none", "before", "after"):
                for t in ("none", "post", "dl"):
                    for bind in BIND:
                        if a == b == "none" and not (i == "after" and bind[0] == "c"):
                            continue    # nothing defines the function
                        if bind[0] != "c" and i != "none" and tier == "quick":
                            continue    # the interposer defines the C functions only
                        yield a, b, order, i, t, bind


def command(top, mon, m):
    """program, its arguments and LD_PRELOAD"""
    a, b, order, i, t, bind = m
    at = {"A": a, "B": b}
    p = lambda x: "%s/%s.so" % (top, x)
    pick = lambda *w: "".join(x for x in order if at[x] in w)
    pre = ([p("libI")] if i == "before" else []) + [top + "/client.so", mon + "/libmonitor.so"] + ([p("libT")] if t == "post" else [])
    pre += ([p("libI")] if i == "after" else []) + [p("lib" + x) for x in pick("post")]
    args = (["g:" + p("libT")] if t == "dl" else []) + [("g:" if at[x] == "glob" else "l:") + p("lib" + x) for x in pick("glob", "loc")]
    opened = [x[2:] for x in args]
    plug = p("plug" + pick("priv"))
    opened.append(plug)
    args += ["l:" + plug, "c:" + bind] + ["s:only_%d" % BASE[x] for x in "AB" if at[x] not in GLOBAL] + ["s:plug", "x"] + ["n:" + p("lib" + x) for x in "AB"]
    return ["%s/app%s" % (top, pick("need"))] + args, " ".join(pre), opened


def targets(m):
    """the libraries one of which must be reached: the first global one after libmonitor, else any private one"""
    a, b, order, i, t, bind = m
    at = {"A": a, "B": b}
    for w in GLOBAL:
        g = [x for x in order if at[x] == w]
        if g:
            return g[:1]
    return [x for x in order if at[x] in ("loc", "priv")]


def expect(m, opened, x):
    """the log if library x is reached ("" for the interposer itself)"""
    a, b, order, i, t, bind = m
    at = {"A": a, "B": b}
    n = BASE.get(x, 0)
    out = ["init_process", "main"]
    for o in opened:
        o = os.path.basename(o)
        out += ["pre_dlopen " + o, "dlopen %s 1" % o]
    F = NAMES[bind[0]]
    n += F[4]
    th = len(bind) > 1
    own = i == "after" and bind[0] == "c"  # the interposer is the next definition; it passes the call on to the next global one, if any
    end = not own or at.get(x) in GLOBAL   # the call arrives at x

    def call(f, pre, post):
        r = ["I:" + f] if i == "before" and bind[0] == "c" else []
        return r + pre + (["I:" + f] if own else []) + (["%s:%s" % (x, f)] if end else []) + post
    init, rank, fini, size, prov = (n + 1 + th, n + 4, n + 3, n + 40, 8) if end else (301 + th, 304, 303, 340, 307)
    out += call(F[3 if th else 0], ["mpi_pre_init"], ["init_mpi"]) + ["init %d" % init]
    for k in range(2):
        out += call(F[1], [], []) + ["rank %d" % rank]
    out += call(F[2], ["fini_mpi %d/%d" % (rank, size)], ["mpi_post_fini"])
    out += ["finalize %d" % fini] + (["provided %d" % prov] if th else [])
    out += ["global only_%d 0" % BASE[y] for y in "AB" if at[y] not in GLOBAL] + ["global plug 0"]   # the search leaves the scopes as they were
    out += ["dlclose", "post_dlclose 0"] * len(opened)
    for y in "AB":
        ld = at[y] in ("post", "need")
        out += ["pre_dlopen lib%s.so" % y, "dlopen lib%s.so %d" % (y, ld), "loaded lib%s.so %d" % (y, ld)]
    return out + ["end", "fini_process"]


def wraps(top, mon):
    """(name, LD_PRELOAD, expected log of the main process, of its children)"""
    f = ["init_process", "main"]
    c = "%s/client.so %s/libmonitor.so" % (top, mon)
    yield ("after", c + " " + top + "/libW.so", f + [
        "pre_fork", "W:fork", "post_fork", "status 2304", "pre_fork", "W:fork", "post_fork", "status 0", "thread_pre_create", "W:pthread_create", "thread_post_create",
        "W:sigprocmask", "W:pthread_sigmask", "W:sigtimedwait", "got -1", "W:sigwaitinfo", "got 12", "pre_dlopen libm.so.6", "W:dlopen", "dlopen libm.so.6 1", "dlclose", "W:dlclose", "post_dlclose 0",
        "pre_fork", "W:fork", "post_fork", "status 0", "thread_pre_create", "W:pthread_create", "thread_post_create", "W:pthread_exit",
        "pre_dlopen libA.so", "W:dlopen", "dlopen libA.so 1", "dlclose", "post_dlclose 0", "end", "fini_process", "W:exit"],
        [["init_process", "fini_process", "W:_exit"], ["init_process", "fini_process", "W:execv"], ["init_process", "fini_process", "W:execve"]])
    yield ("before", top + "/libW.so " + c, f + [
        "W:fork", "pre_fork", "post_fork", "status 2304", "W:fork", "pre_fork", "post_fork", "status 0", "W:pthread_create", "thread_pre_create", "thread_post_create",
        "W:sigprocmask", "W:pthread_sigmask", "W:sigtimedwait", "got -1", "W:sigwaitinfo", "got 12", "W:dlopen", "pre_dlopen libm.so.6", "dlopen libm.so.6 1", "W:dlclose", "dlclose", "post_dlclose 0",
        "W:fork", "pre_fork", "post_fork", "status 0", "W:pthread_create", "thread_pre_create", "thread_post_create", "W:pthread_exit",
        "W:dlopen", "pre_dlopen libA.so", "dlopen libA.so 1", "dlclose", "post_dlclose 0", "end", "W:exit", "fini_process"],
        [["init_process", "W:_exit", "fini_process"], ["init_process", "W:execv", "fini_process"], ["init_process", "W:execve", "fini_process"]])


def run(cmd, preload, top, name, more={}):
    log = os.path.join(top, "log-" + name)
    env = {"PATH": "/usr/bin:/bin", "HOME": top, "LC_ALL": "C", "CONF_LOG": log, "LD_PRELOAD": preload}
    env.update(more)
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=top, start_new_session=True)
    try:
        rc = p.wait(timeout=40)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        rc = "none: still running after 40 s"
    procs = {}
    try:
        for l in open(log).read().splitlines():
            pid, e = l.split(" ", 1)
            procs.setdefault(int(pid), []).append(e)
        os.unlink(log)
    except OSError:
        pass
    main = procs.pop(p.pid, [])
    return rc, main, list(procs.values())


def differ(got, want):
    for k in range(max(len(got), len(want))):
        a, b = (got[k] if k < len(got) else "nothing"), (want[k] if k < len(want) else "nothing")
        if a != b:
            return "event %d is '%s', expected '%s'" % (k, a, b)


def link(prop, tier, res, outdir):
    import extra
    mon = real.build_real() + "/inst/lib"
    top = tempfile.mkdtemp(prefix="verif-link-")
    try:
        objects(top, mon)
        stop = []

        def one(j):
            n, m, dbg = j
            if len(stop) >= 3:
                return None
            cmd, pre, opened = command(top, mon, m)
            rc, log, kids = run(cmd, pre, top, str(n), {"MONITOR_DEBUG": "1"} if dbg else {})
            wants = [expect(m, opened, x) for x in targets(m) or [""]]
            bad = None
            if rc != 3:
                bad = "the program ended with %s instead of exit status 3, after %r" % (rc, log[-3:])
            elif log not in wants:
                bad = differ(log, wants[0])
            if bad:
                stop.append(m)
                return m, dbg, cmd, pre, bad, log, wants[0]
            return len(log)
        ms = list(maps(tier))
        jobs = [(k, m, False) for k, m in enumerate(ms)]
        if tier != "quick":
            jobs += [(len(ms) + k, m, True) for k, m in enumerate(ms)]
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, jobs))
        for o in outs:
            res.executions += 1
            if isinstance(o, int):
                res.transitions += o
                res.validated += 1
            elif o and len(res.violations) < 3:
                m, dbg, cmd, pre, bad, log, want = o
                t = "MPI libraries A %s, B %s (%s), interposer %s, tool %s, binding %s%s" % (m + (", debug output" if dbg else "",))
                f = extra.replay_file(outdir, "link-%s%s.txt" % ("-".join(m), "-debug" if dbg else ""), "%s (lib/link.py, real/link.c)\nLD_PRELOAD='%s' %s\n%s\nlog: %r\nexpected: %r\n" % (t, pre, " ".join(cmd), bad, log, want))
                res.violations.append(("%s: %s" % (t, bad), f))
        res.states += len(ms)
        for name, pre, main, kids in wraps(top, mon):
            cmd = [top + "/app", "F", "E", "T", "M", "K", "W", "I", "C", "V", "P", "l:" + top + "/libA.so", "x"]
            rc, log, got = run(cmd, pre, top, "w-" + name)
            bad = differ(log, main)
            if rc != 3:
                bad = "the program ended with %s instead of exit status 3, after %r" % (rc, log[-3:])
            elif not bad and got != kids:
                bad = "the children's events are %r, expected %r" % (got, kids)
            res.executions += 1
            res.states += 1
            if bad:
                f = extra.replay_file(outdir, "link-wrapper-%s.txt" % name, "a library that wraps C library functions, %s libmonitor\nLD_PRELOAD='%s' %s\n%s\nlog: %r\nexpected: %r\n" % (name, pre, " ".join(cmd), bad, (log, got), (main, kids)))
                res.violations.append(("wrapper library %s libmonitor: %s" % (name, bad), f))
            else:
                res.validated += 1
        print("%s: %d of %d runs as expected" % (prop, res.validated, res.executions))
        res.extra["link_maps"] = len(ms)
        res.samples.append({"map": ms[0], "command": command("DIR", "LIB", ms[0])[0]})
    finally:
        shutil.rmtree(top, ignore_errors=True)
