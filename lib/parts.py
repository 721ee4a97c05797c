"""C28: every configuration of the optional parts, with every set of parts used by the program, preloaded and linked statically."""
import glob, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, real

PARTS = "DFMTS"
OPT = {"D": "dlfcn", "F": "fork", "M": "mpi", "T": "pthreads", "S": "signals"}
SETS = ["".join(p for i, p in enumerate(PARTS) if n >> i & 1) for n in range(32)]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return None if r.returncode == 0 else "%s\n%s" % (" ".join(cmd), r.stdout[-1500:])


def build_config(top, src, parts):
    """configure with just these parts, make, make install; returns an error text or None"""
    d = os.path.join(top, "c-" + (parts or "none"))
    os.makedirs(d + "/b")
    env = dict(os.environ, LC_ALL="C")
    env.pop("LD_PRELOAD", None)
    e = (sh([src + "/configure", "-q", "--prefix=" + d, "CC=gcc"] + ["--enable-%s=%s" % (OPT[p], "yes" if p in parts else "no") for p in PARTS], cwd=d + "/b", env=env)
         or sh(["make", "-s"], cwd=d + "/b", env=env) or sh(["make", "-s", "install"], cwd=d + "/b", env=env))
    shutil.rmtree(d + "/b", ignore_errors=True)
    return e


def build_all(top, sets):
    src = top + "/tree"
    for f in real.tree_files():
        t = os.path.join(src, os.path.relpath(f, build.REPO))
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copy2(f, t)
    inc = "-I" + top + "/inc"
    os.makedirs(top + "/inc")
    shutil.copy2(build.REPO + "/src/monitor.h", top + "/inc/monitor.h")
    P = real.RDIR + "/parts.c"
    cc = ["gcc", "-g", "-O1", "-w", "-fno-omit-frame-pointer", inc]
    jobs = [cc + ["-DCLIENT", "-fPIC", "-shared", P, "-o", top + "/client.so"], cc + ["-DCLIENT", "-c", P, "-o", top + "/client.o"],
            cc + ["-fPIC", "-shared", real.RDIR + "/fmpi.c", "-o", top + "/libfmpi.so"], cc + ["-c", real.RDIR + "/fmpi.c", "-o", top + "/fmpi.o"]]
    for u in SETS:
        d = ["-DUSE_" + x for x in u]
        jobs.append(cc + d + [P, "-o", top + "/dyn-" + u, "-lpthread", "-ldl"])
        jobs.append(cc + d + ["-DSTATIC", "-c", P, "-o", top + "/st-" + u + ".o"])
    with ThreadPoolExecutor(8) as ex:
        conf = [ex.submit(build_config, top, src, s) for s in sets]
        for e in ex.map(sh, jobs[:4]):
            if e:
                raise RuntimeError(e)
        # programs that use MPI are linked with the library
        for j in jobs[4:]:
            if "-DUSE_M" in j and "-DSTATIC" not in j:
                j += ["-L" + top, "-lfmpi", "-Wl,-rpath," + top]
        for e in ex.map(sh, jobs[4:]):
            if e:
                raise RuntimeError(e)
        return [f.result() for f in conf]


def expect(conf, use, static):
    """the log as it must be: a list per process and thread, main first; None where this configuration promises nothing"""
    T, D, F, M, S = (x in conf for x in "TDFMS")
    st = {"threaded": 0, "data": "0", "mpi": "-1/-1"}
    main, threads, child = [], [], None

    def pr(ev, to=None, tid=0, data=None, threaded=None):
        (main if to is None else to).append("%s threaded %d tid %d data %s mpi %s" % (ev, st["threaded"] if threaded is None else threaded, tid, st["data"] if data is None else data, st["mpi"]))

    def log(*a):
        main.extend(a)
    if static:
        log("start_main_init")
        pr("init_library")
    else:
        pr("init_library")
        log("start_main_init")
    pr("init_process")
    st["data"] = "1111"
    pr("at_main")
    pr("main")
    log("frames 183")
    log("real_sigprocmask 0", "real_dlopen %d" % (3 if D else 4), "real_pthread_sigmask %d" % (0 if T else -1))
    if "S" in use:
        log("old 1", "handler 12")
        log(*(["monitor_sigaction 0", "client 10"] if S else ["monitor_sigaction -1", "handler 10"]))
        log("handler 12")
    if "D" in use:
        log(*(["pre_dlopen", "dlopen"] if D else []))
        log("handle 1")
        log(*(["dlclose", "post_dlclose"] if D else []))
        log("closed 0")
    if "M" in use:
        log(*(["mpi_pre_init"] if M else []))
        log("mpi:MPI_Init")
        log(*(["init_mpi argc 1"] if M else []))
        log("MPI_Init 1", "mpi:MPI_Comm_rank", "rank 4")
        if M:
            st["mpi"] = "4/40"
            pr("fini_mpi")
        log("mpi:MPI_Finalize")
        log(*(["mpi_post_fini"] if M else []))
        log("MPI_Finalize 3")

    def create(first):
        if T:
            if first:
                st["threaded"] = 1
                pr("init_thread_support")
            pr("thread_pre_create")
            log("reset_stacksize", "thread_post_create data 3333")
        log("create 0")
    if "T" in use:
        create(True)
        log("join 1")
        if T:
            t = ["init_thread 1 data 3333"]
            pr("thread", t, 1, "4441")
            t += ["frames 123", "fini_thread data 4441"]
            pr("in", t, 1, "4441")
            threads.append(t)
        pr("joined")
    if "F" in use:
        def forked():
            if F:
                pr("pre_fork")
                log("post_fork 1 data 2222")
        forked()
        log("system 768")
        forked()
        log("status 2304")
        if F:
            child = []
            pr("init_process", child, 0, "2222", 0)
            pr("child", child, 0, "5555", 0)
            child.append("begin_process_exit 1")
            pr("in", child, 0, "5555", 0)
            child.append("fini_process 1 data 5555")
            pr("in", child, 0, "5555", 0)
            if not static:
                pr("fini_library", child, 0, "5555", 0)
    if "T" in use:
        create(False)
        if T:
            t = ["init_thread 2 data 3333", "fini_thread data 4442"]
            pr("in", t, 2, "4442")
            threads.append(t)
    log("end", "begin_process_exit 1")
    pr("in")
    log("fini_process 1 data 1111")
    pr("in")
    if not static:
        pr("fini_library")
    return main, threads, child


def run(cmd, env, scratch, name):
    log = os.path.join(scratch, "log-" + name)
    if os.path.exists(log):
        os.unlink(log)
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(env, CONF_LOG=log), cwd=scratch, start_new_session=True)
    try:
        rc = p.wait(timeout=40)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        rc = "none: still running after 40 s"
    procs = {}
    try:
        for l in open(log).read().splitlines():
            pid, tid, e = l.split(" ", 2)
            procs.setdefault(pid, {}).setdefault(tid, []).append(e)
    except OSError:
        pass
    pid = str(p.pid)
    main = procs.pop(pid, {})
    m = main.pop(pid, [])
    return rc, m, sorted(main.values()), list(procs.values())


def judge(got, conf, use, static):
    """None or what is wrong"""
    rc, m, threads, kids = got
    em, et, ec = expect(conf, use, static)
    if static and "D" in conf and "D" not in use:   # the linker may leave the part out
        m = [x.replace("real_dlopen 4", "real_dlopen 3") for x in m]
    if static and "T" in conf and "T" not in use:
        m = [x.replace("real_pthread_sigmask -1", "real_pthread_sigmask 0") for x in m]
    if rc != 3:
        return "the program ended with %s instead of exit status 3, after %r" % (rc, m[-3:])
    if m != em:
        for i in range(max(len(m), len(em))):
            a, b = (m[i] if i < len(m) else "nothing"), (em[i] if i < len(em) else "nothing")
            if a != b:
                return "event %d of the main thread is '%s', expected '%s'" % (i, a, b)
    if "T" in use and "T" in conf and threads != sorted(et):
        return "the threads' events are %r, expected %r" % (threads, sorted(et))
    if ec is not None:
        # the shell of system() has no library; what is left is the child
        k = [list(x.values()) for x in kids]
        if k != [[ec]]:
            return "the child's events are %r, expected %r" % (k, [[ec]])
    return None


def parts(prop, tier, res, outdir):
    import extra
    top = tempfile.mkdtemp(prefix="verif-parts-")
    try:
        errs = build_all(top, SETS)
        for s, e in zip(SETS, errs):
            if e:
                f = extra.replay_file(outdir, "config-%s.txt" % (s or "none"), "configured with the parts '%s' only, the library does not build:\n%s\n" % (" ".join(OPT[p] for p in s), e))
                res.violations.append(("configured with %s the library does not build" % (", ".join(OPT[p] for p in s) or "none of the optional parts"), f))
                return
        res.states += len(SETS)
        env = {"PATH": "/usr/bin:/bin", "HOME": top, "LC_ALL": "C"}
        reps = 1 if tier == "quick" else 5

        stop = []

        def one(j):
            c, u, static = j
            if len(stop) >= 3:
                return "", []
            inst = top + "/c-" + (c or "none")
            name = "%s-%s-%s" % (c, u, "s" if static else "d")
            if static:
                exe = top + "/x-" + name
                e = sh([inst + "/bin/monitor-link", "-i", top + "/client.o", "gcc", top + "/st-" + u + ".o"] + ([top + "/fmpi.o"] if "M" in u else []) + ["-o", exe, "-lpthread", "-ldl"])
                if e:
                    stop.append(j)
                    return "does not link: " + e[-600:], []
                cmd = [exe]
            else:
                cmd = [inst + "/bin/monitor-run", "-i", top + "/client.so", top + "/dyn-" + u]
            bad = None
            for k in range(reps):
                got = run(cmd, env, top, name)
                bad = judge(got, c, u, static)
                if bad:
                    stop.append(j)
                    break
            if static:
                os.unlink(exe)
            return bad, got
        jobs = [(c, u, s) for c in SETS for u in SETS for s in (False, True)]
        with ThreadPoolExecutor(8) as ex:
            out = list(ex.map(one, jobs))
        n = 0
        for j, (bad, got) in zip(jobs, out):
            res.executions += reps
            res.transitions += len(got[1]) if got else 0
            if bad is None:
                n += 1
            if not bad:
                continue
            if len(res.violations) < 3:
                c, u, s = j
                t = "configured with %s; program uses %s, %s" % (", ".join(OPT[p] for p in c) or "no optional part", ", ".join(OPT[p] for p in u) or "no optional part", "linked statically" if s else "preloaded")
                f = extra.replay_file(outdir, "parts-%s-%s-%d.txt" % (c or "none", u or "none", s), "%s (real/parts.c, built and run by lib/parts.py)\n%s\nlog: %r\n" % (t, bad, got))
                res.violations.append(("%s: %s" % (t, bad), f))
        res.validated += n
        print("%s: %d of %d programs in %d configurations as expected" % (prop, n, len(jobs), len(SETS)))
        res.extra["configurations"] = len(SETS)
        res.extra["programs_per_configuration"] = 2 * len(SETS)
        res.samples.append({"configuration": "DFMTS", "uses": "DFMTS", "expected": expect("DFMTS", "DFMTS", False)})
    finally:
        shutil.rmtree(top, ignore_errors=True)
