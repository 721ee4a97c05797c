"""The real library, built by the repository's own configure and make, and programs that run with it on the real system."""
import glob, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build

RDIR = os.path.join(build.VERIF, "real")


def tree_files():
    r = []
    for d in ("", "src", "config"):
        p = os.path.join(build.REPO, d)
        r += [f for f in glob.glob(p + "/*") if os.path.isfile(f)]
    return r


def build_real():
    """configure, make, make install in a directory of our own; returns it (inst/ has the installed files)"""
    d = build.digest(tree_files() + glob.glob(RDIR + "/*") + [os.path.abspath(__file__)])
    out = os.path.join(build.BUILD, "real-" + d)
    with build.lock():
        if os.path.exists(out + "/done"):
            return out
        for old in glob.glob(build.BUILD + "/real-*"):
            shutil.rmtree(old, ignore_errors=True)
        src = out + "/tree"      # a copy, so that nothing is written in /repo
        os.makedirs(src)
        for f in tree_files():
            rel = os.path.relpath(f, build.REPO)
            os.makedirs(os.path.dirname(os.path.join(src, rel)), exist_ok=True)
            shutil.copy2(f, os.path.join(src, rel))
        os.makedirs(out + "/b")
        env = dict(os.environ, LC_ALL="C", CC="gcc")
        env.pop("LD_PRELOAD", None)
        build.sh([src + "/configure", "-q", "--prefix=" + out + "/inst", "CC=gcc"], cwd=out + "/b", env=env)
        build.sh(["make", "-s", "-j8"], cwd=out + "/b", env=env)
        build.sh(["make", "-s", "install"], cwd=out + "/b", env=env)
        inc = "-I" + out + "/inst/include"
        build.sh(["gcc", "-g", "-O1", "-w", "-fPIC", "-shared", inc, RDIR + "/client.c", "-o", out + "/client.so"])
        build.sh(["gcc", "-g", "-O1", "-w", "-c", inc, RDIR + "/client.c", "-o", out + "/client.o"])
        build.sh(["gcc", "-g", "-O1", "-w", "-fPIC", "-c", inc, RDIR + "/client.c", "-o", out + "/client-pic.o"])
        build.sh(["gcc", "-g", "-O1", "-w", "-DSTATIC", inc, "-c", RDIR + "/app.c", "-o", out + "/app-obj.o"])
        build.sh(["gcc", "-g", "-O1", "-w", inc, RDIR + "/app.c", "-o", out + "/app-dynamic", "-lpthread", "-ldl"])
        build.sh([out + "/inst/bin/monitor-link", "-i", out + "/client.o", "gcc", "-g", "-O1", "-w", "-DSTATIC", inc, RDIR + "/app.c",
                  "-o", out + "/app-static", "-lpthread", "-ldl"])
        build.sh(["gcc", "-g", "-O1", "-w", "-fno-omit-frame-pointer", inc, RDIR + "/frames.c", "-o", out + "/frames-dynamic", "-lpthread", "-ldl"])
        build.sh([out + "/inst/bin/monitor-link", "-i", out + "/client.o", "gcc", "-g", "-O1", "-w", "-DSTATIC", inc, RDIR + "/frames.c",
                  "-o", out + "/frames-static", "-lpthread", "-ldl"])
        build.sh(["gcc", "-O1", "-w", "-static", RDIR + "/stub.c", "-o", out + "/stub"])
        open(out + "/done", "w").close()
    return out


def progs():
    t = open(RDIR + "/progs.h").read()
    return re.findall(r'"([A-Za-z]+)"', t[t.index("PROGS[]"):])


def run_real(out, variant, prog, scratch, n=0, more=(), client=None, app=None, opts=()):
    """client: path of the client library or object, "" for none; variant "plain" runs without the library"""
    log = os.path.join(scratch, "log-%s-%s-%s" % (variant, prog, n))
    if os.path.exists(log):
        os.unlink(log)
    env = {"PATH": "/usr/bin:/bin", "HOME": scratch, "CONF_LOG": log, "LC_ALL": "C"}
    env.update(more)
    cmd = [app or out + ("/app-static" if variant == "static" else "/app-dynamic"), prog]
    if variant == "dynamic":
        client = out + "/client.so" if client is None else client
        cmd = [out + "/inst/bin/monitor-run"] + list(opts) + (["-i", client] if client else []) + cmd
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=scratch, start_new_session=True)
    try:
        rc = p.wait(timeout=40)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return None
    try:
        lines = open(log).read().splitlines()
    except OSError:
        lines = []
    procs, statuses, order = {}, [], []
    for l in lines:
        pid, tid, e = l.split(" ", 2)
        if pid not in procs:
            procs[pid] = {}
            order.append(pid)
        if e.startswith("status "):
            statuses.append(int(e.split()[1]))
            continue
        procs[pid].setdefault(tid, []).append(e)
    main = str(p.pid)
    tr = {pid: ";".join(sorted(",".join(ev) for ev in t.values())) for pid, t in procs.items()}
    ends = {main: ("signal", -rc) if rc < 0 else ("exit", rc)}
    kids = [pid for pid in order if pid != main]
    for pid, st in zip(kids, statuses):
        ends[pid] = ("signal", st & 0x7f) if st & 0x7f else ("exit", st >> 8)
    return [(pid == main, tr[pid], ends.get(pid)) for pid in order]


def sim_traces(exe, lib, variant, idx, bound, scratch):
    f = os.path.join(scratch, "sim-%s-%d" % (variant, idx))
    if os.path.exists(f):
        os.unlink(f)
    cmd = [exe, "--lib", lib, "--scenario", "conf", "--only", "NONE", "--bound", str(bound), "--param", str(idx), "--time", "120", "--out", f + ".json"]
    if variant == "static":
        cmd.append("--static")
    p = subprocess.run(cmd, env=dict(os.environ, VERIF_TRACES=f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode not in (0, 1):
        raise RuntimeError("monsim failed on program %d: %s" % (idx, p.stdout[-500:]))
    top, kid = set(), set()
    try:
        lines = open(f).read().splitlines()
    except OSError:
        lines = []
    for l in lines:
        body, end = l.rsplit(" # ", 1)
        k, st, pr = end.split()
        e = {"1": ("exit", int(st)), "2": ("signal", int(st)), "3": ("exit", 0)}.get(k)
        if pr == "0":
            top.add((body, e))
        else:
            kid.add((body.split(" | ")[-1], e))
    return top, kid, p.stdout


def conformance(select, bound, variants=("dynamic", "static"), reps=3, kw={}):
    """runs the selected programs on the real system and in the simulator; returns (validated, mismatches)"""
    out = build_real()
    exe = build.build_sim()
    ps = progs()
    scratch = tempfile.mkdtemp(prefix="verif-conf-")
    ok, bad, samples = 0, [], []
    try:
        jobs = [(v, i) for v in variants for i in range(len(ps)) if select(ps[i])]
        with ThreadPoolExecutor(6) as ex:
            reals = list(ex.map(lambda j: run_real(out, j[0], ps[j[1]], scratch, **kw), jobs))
        for (v, i), r in zip(jobs, reals):
            top, kid, txt = sim_traces(exe, build.build_lib(exe, v), v, i, bound, scratch)
            for n in range(1, reps + 1):
                miss = None
                if r is None:
                    miss = "hang"
                elif not r:
                    miss = "no callback at all"
                else:
                    for main, tr, end in r:
                        if (tr, end) not in (top if main else kid):
                            miss = "%s: %s, end %s" % ("process" if main else "child", tr, end)
                            break
                if not miss:
                    ok += 1
                    if len(samples) < 3:
                        samples.append({"program": ps[i], "build": v, "real_trace": r[0][1]})
                    break
                if n == reps:
                    bad.append((v, ps[i], miss, sorted(top if (r and r[0][0]) else kid)[:2]))
                else:
                    r = run_real(out, v, ps[i], scratch, n, **kw)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return ok, bad, samples


if __name__ == "__main__":
    import sys
    sel = sys.argv[1] if len(sys.argv) > 1 else ""
    o, b, s = conformance(lambda p: re.search(sel, p), int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    print(o, "validated")
    for x in b:
        print(x)
