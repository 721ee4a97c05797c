"""Checks that run the real library, built by its own configure and make, on the real system."""
import itertools, json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, real

# programs (real/progs.h) whose traces are compared for each property
CONF = {
    "C01": "^[A-Z]$|^cpy[A-Z]$|^c[euk]jR|cpyc[euk]jR|frE", "C02": "^c|^D", "C03": "^cwy|^czy|czyR|^cpy[EUVR]$|cpycpy", "C04": "^c[rxn]j|^D|^i", "C05": "^c[rxn]j|^i",
    "C06": "^i|^c[rxn]j", "C07": "^[fvg]|cf|crjfc", "C08": "cpyf|crjf|cf|^g|^f", "C09": "X$|^fxE", "C10": "^s|^S|cpys", "C11": "^[qQNm]|ch", "C12": "^[FKAG]|K$|F$|^fkE",
    "C13": "^[mW]", "C14": "^W|cwy", "C15": "^[ERUX]$|^crj[EUR]$|^frE", "C16": "^[A-Z]$|^fcE|^frE|^cpy[EUVRXFK]$", "C19": "o", "C20": "^cpyE$|^cpycpyE$", "C21": "B", "C22": "^g",
}


def replay_file(outdir, name, text):
    p = os.path.join(outdir, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def conf(prop, tier, res, outdir):
    """every process of the selected programs, run for real, has callbacks and an end that the simulator's exploration of it contains"""
    sel = re.compile(CONF[prop] if tier == "quick" else ".")
    variants = ("dynamic",) if prop == "C16" else ("dynamic", "static")
    ok, bad, samples = real.conformance(lambda p: sel.search(p), 0 if tier == "quick" else 1, variants, 5)
    print("%s: %d runs of real programs validated" % (prop, ok))
    res.validated += ok
    res.extra["conformance"] = {"programs_run_and_matched": ok, "samples": samples, "rule": "same callbacks per thread, same process ends, on the installed library and in the simulator"}
    for v, p, miss, exp in bad[:3]:
        f = replay_file(outdir, "conf-%s-%s.txt" % (v, p), "program %s (%s build, see real/progs.h)\non the real system: %s\nin the simulator, for example: %s\n" % (p, v, miss, exp))
        res.violations.append(("program %s, %s build: on the real system %s" % (p, v, miss), f))


def shootenv(prop, tier, res, outdir):
    """process exit with every value of MONITOR_SHOOTDOWN_SIGNAL on the real system"""
    vals = [str(i) for i in range(0, 67)] + ["", " ", "x", "-1", "12x", "0x0c", "+12", " 12", "1e3", "99999999999999999999", "-99999999999999999999", "12 13", "\t40"]
    out = real.build_real()
    scratch = tempfile.mkdtemp(prefix="verif-shoot-")
    try:
        ref = {v: real.run_real(out, v, "cpycpyE", scratch, 1000) for v in ("dynamic", "static")}
        jobs = [(v, n) for v in ("dynamic", "static") for n in range(len(vals))]

        def one(j):
            for k in range(3):
                r = real.run_real(out, j[0], "cpycpyE", scratch, j[1] + 2000 * k, {"MONITOR_SHOOTDOWN_SIGNAL": vals[j[1]]})
                if r == ref[j[0]]:
                    break
            return r
        with ThreadPoolExecutor(8) as ex:
            got = list(ex.map(one, jobs))
        for (v, n), r in zip(jobs, got):
            res.executions += 1
            if r == ref[v] and r and r[0][1].count("fini_thread") == 2:
                res.validated += 1
            elif not res.violations:
                f = replay_file(outdir, "shootenv-%s-%d.txt" % (v, n), "program cpycpyE, %s build, MONITOR_SHOOTDOWN_SIGNAL=%r: %r\n" % (v, vals[n], r))
                res.violations.append(("process exit with MONITOR_SHOOTDOWN_SIGNAL=%r (%s build): %r" % (vals[n], v, r), f))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---- C25 and C26: the other properties' oracles with part of the callbacks undefined, or with debug output

SMALL = {"thr_ops": 1, "sig_hist": 1, "mpi_hist": 1, "mpi_tree": 1, "dl_tree": 1, "exec_seq": 2, "wait_answers": 2, "mask_seq": 1}
# one thread, no schedule: with debug output every execution must be the same event by event
SEQ = ("dl_tree exec_args exec_file exec_path exit0 fork0 mask_one mask_seq mpi_hist mpi_rank mpi_tree real_env real_sys_env sig_hist sig_nest sig_nums "
       "system system_no system_null system_seq wait_answers").split()


def owners():
    import plan
    own = {}
    for c, p in plan.PLAN.items():
        for j in p.jobs("thorough"):
            own.setdefault(j.scenario, set()).add(c)
    return own


def monsim(exe, lib, variant, scenario, only, bound, param, out, more, limit):
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, "--lib", lib, "--scenario", scenario, "--only", only, "--bound", str(bound), "--param", str(param), "--out", out, "--time", str(limit)] + more
    if variant == "static":
        cmd.append("--static")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode not in (0, 1):
        raise RuntimeError("monsim failed on %s: %s" % (scenario, p.stdout[-500:]))
    return json.load(open(out)), p.stdout


def mode(prop, flag, jobs, res, outdir, what, same):
    """each scenario with the flag: what the oracles of its properties accept without it, they accept with it; same: and the outcomes are equal"""
    exe = build.build_sim()
    own = owners()
    for n, (scn, bound, variant, param) in enumerate(jobs):
        lib = build.build_lib(exe, variant)
        only = ",".join(sorted(own.get(scn, set()) | {prop}))
        out = os.path.join(outdir, "%02d-%s-%s.json" % (n, scn, variant))
        d, text = monsim(exe, lib, variant, scn, only, bound, param, out, [flag], 600)
        print(text, end="", flush=True)
        base = None
        if d["violations"] or scn in same:
            base, t2 = monsim(exe, lib, variant, scn, only, bound, param, out + ".base", [], 600)
        res.states += d["states"] or d["outcomes"]
        res.transitions += d["transitions"]
        res.executions += d["executions"]
        res.exhaustive = res.exhaustive and not d["capped"]
        res.runs.append({k: d[k] for k in ("scenario", "bound", "executions", "states", "transitions", "outcomes", "capped", "wall_s")})
        res.runs[-1].update(build=variant, param=param, oracles=only)
        if len(res.samples) < 3:
            res.samples.append({"scenario": scn, "build": variant, "execution": d["sample"]})
        if base and base["violations"] and (not d["violations"] or d["violations"][0]["prop"] != prop):
            res.runs[-1]["not_decided"] = "violates %s in the ordinary configuration too" % base["violations"][0]["prop"]
            continue
        if d["violations"]:
            v = d["violations"][0]
            res.violations.append(("%s: %s (%s build): %s: %s" % (what, scn, variant, v["prop"], v["msg"]), v["replay"]))
            return
        if scn in same and not (d["capped"] or base["capped"]):
            res.runs[-1]["outcomes_equal"] = True
            if bound:   # printing may add points where a schedule departs from the default: compare without departures
                bound = 0
                d, text = monsim(exe, lib, variant, scn, only, bound, param, out, [flag], 600)
                base, t2 = monsim(exe, lib, variant, scn, only, bound, param, out + ".base", [], 600)
            if (d["outcomes"], d["outcome_hash"]) != (base["outcomes"], base["outcome_hash"]):
                f = replay_file(outdir, "differs-%s-%s.txt" % (scn, variant), "scenario %s param %d bound %d (%s build): %d executions with %d outcomes (hash %x) %s, %d with %d (hash %x) without\n" % (
                    scn, param, bound, variant, d["executions"], d["outcomes"], d["outcome_hash"], what, base["executions"], base["outcomes"], base["outcome_hash"]))
                res.violations.append(("%s: the executions of %s (%s build) are not the same as without" % (what, scn, variant), f))
                return


def subsets_sim(prop, tier, res, outdir):
    q = [("exit0", 1), ("exit1", 0), ("exit_again", 0), ("exit_cancel", 0), ("thr_ops", 0), ("thr_id", 0), ("thr_ignored", 0), ("thr_faults", 0), ("thr_stack", 0), ("fork0", 0), ("fork1", 0), ("fork_side", 0), ("fork_real", 0),
         ("exec_file", 0), ("exec_thread", 0), ("system_seq", 0), ("dl_race", 0), ("mpi_hist", 0), ("sig_nest", 0), ("real", 0), ("bc", 0)]
    if tier == "thorough":
        q = [(s, 1 if s in ("exit1", "thr_id", "fork0", "fork1", "fork_side", "thr_ignored", "exec_thread", "bc") else b) for s, b in q] + [("start", 0), ("dl_tree", 0), ("mpi_tree", 0), ("system", 0), ("thr_many", 0), ("exec_path", 0), ("exit_slow", 0), ("exit_race", 0)]
    mode(prop, "--subsets", [(s, b, v, SMALL.get(s, 0)) for s, b in q for v in ("dynamic", "static")], res, outdir, "with callbacks undefined", ())


def debug_sim(prop, tier, res, outdir):
    own = owners()
    one = ("bc", "exit0", "fork0", "fork_atexit", "thr_id3", "dl_race", "mpi_race", "sig_fatal", "exit_killed")
    jobs = [(s, (1 if s in one else 0) if tier == "quick" else 0 if s in SEQ or s in ("start", "thr_ops", "thr_many") else 1, v, SMALL.get(s, 0)) for s in sorted(own) if s != "conf" and not (s == "mpi_rank" and tier == "quick") for v in ("dynamic", "static")
            if not (v == "static" and tier == "quick" and s in ("start", "thr_many"))]
    mode(prop, "--debugenv", jobs, res, outdir, "with MONITOR_DEBUG", SEQ)


def debug_real(prop, tier, res, outdir):
    """the programs of real/progs.h with MONITOR_DEBUG, standard error open or closed, are as the simulator has them without"""
    sel = re.compile("^[A-Z]$|^crj|^cpy[EUVRXFK]$|^c[euk]j|^i|^f|^v|^g|^s|^o|^q|^Q|^N|^m|^W|B|^D" if tier == "quick" else ".")
    for how, kw in (("debug", {"more": {"MONITOR_DEBUG": "1"}}), ("monitor-run -d", {"opts": ("-d",)})):
        vs = ("dynamic", "static") if how == "debug" else ("dynamic",)
        ok, bad, samples = real.conformance(lambda p: sel.search(p), 0 if tier == "quick" else 1, vs, 5, kw)
        print("%s: %d runs of real programs with %s validated" % (prop, ok, how))
        res.validated += ok
        res.extra.setdefault("conformance", {})[how] = {"programs_run_and_matched": ok, "samples": samples}
        for v, p, miss, exp in bad[:3]:
            f = replay_file(outdir, "debug-%s-%s.txt" % (v, p), "program %s (%s build, %s, see real/progs.h)\non the real system: %s\nin the simulator, for example: %s\n" % (p, v, how, miss, exp))
            res.violations.append(("program %s, %s build, %s: on the real system %s" % (p, v, how, miss), f))
        if bad:
            return


CBS = ("init_library fini_library init_process fini_process begin_process_exit start_main_init at_main pre_fork post_fork thread_pre_create thread_post_create "
       "init_thread_support init_thread fini_thread reset_stacksize pre_dlopen dlopen dlclose post_dlclose").split()
PROVIDES = {"fini_process": "init_process", "post_fork": "pre_fork", "thread_post_create": "thread_pre_create", "init_thread": "thread_pre_create"}


def only_of(runs, defined):
    """the run as a client that defines just these callbacks sees it"""
    if runs is None:
        return None
    out = []
    for main, tr, end in runs:
        ths = []
        for t in tr.split(";"):
            evs = []
            for e in t.split(","):
                cb = e.split(" ")[0]
                if cb in CBS:
                    if cb not in defined:
                        continue
                    if PROVIDES.get(cb) and PROVIDES[cb] not in defined:
                        e = e.replace(" bad data", "")
                evs.append(e)
            if evs:
                ths.append(",".join(evs))
        out.append((main, ";".join(sorted(ths)), end))
    return out


def subsets_real(prop, tier, res, outdir):
    """real clients that define none, one, all but one or all of the callbacks; and programs without any client against unmonitored ones"""
    out = real.build_real()
    scratch = tempfile.mkdtemp(prefix="verif-subsets-")
    try:
        subs = [("none", ())] + [("only-" + c, (c,)) for c in CBS] + [("without-" + c, tuple(x for x in CBS if x != c)) for c in CBS]

        def client(sub):
            name, d = sub
            o = "%s/%s.o" % (scratch, name)
            build.sh(["objcopy"] + [x for c in CBS if c not in d for x in ("--localize-symbol", "monitor_" + c)] + [out + "/client.o", o])
            p = "%s/%s.pic.o" % (scratch, name)
            build.sh(["objcopy"] + [x for c in CBS if c not in d for x in ("--localize-symbol", "monitor_" + c)] + [out + "/client-pic.o", p])
            build.sh(["gcc", "-shared", "-o", "%s/%s.so" % (scratch, name), p])
            r = subprocess.run([out + "/inst/bin/monitor-link", "-i", o, "gcc", out + "/app-obj.o", "-o", "%s/app-%s" % (scratch, name), "-lpthread", "-ldl"],
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return None if r.returncode == 0 else r.stdout[-600:]
        with ThreadPoolExecutor(8) as ex:
            errs = list(ex.map(client, subs))
        for (name, d), e in zip(subs, errs):
            if e:
                f = replay_file(outdir, "link-%s.txt" % name, "a client that defines %s does not link with monitor-link:\n%s\n" % (" ".join(d) or "nothing", e))
                res.violations.append(("a client (%s) cannot be linked statically: %s" % (name, e.splitlines()[0] if e else ""), f))
                return
        ps = ["E", "U", "R", "K", "A", "crjE", "cxjR", "cpyE", "cpyR", "cpyK", "cejR", "feE", "frE", "cpyfcR", "sE", "oE", "cpyX", "DcrjE"] if tier != "quick" else ["R", "K", "crjE", "cpyR", "frE", "sE", "oE", "cpyX"]
        full = {}
        jobs = [(v, s, p) for v in ("dynamic", "static") for s in subs for p in ps]

        def run(j, n):
            v, (name, d), p = j
            return real.run_real(out, v, p, scratch, "%s-%d" % (name, n), client="%s/%s.so" % (scratch, name), app="%s/app-%s" % (scratch, name) if v == "static" else None)
        for v in ("dynamic", "static"):
            for p in ps:
                full[v, p] = real.run_real(out, v, p, scratch)

        def one(j):
            v, (name, d), p = j
            for n in range(5):
                r = only_of(run(j, n), d)
                want = only_of(full[v, p], d)
                # a process that leaves no trace at all is not in the log
                if r is not None and want is not None and [x for x in r if x[1]] == [x for x in want if x[1]]:
                    return None
                if n:
                    full[v, p] = real.run_real(out, v, p, scratch, "full-%s-%d" % (name, n))
            return (j, r, want)
        with ThreadPoolExecutor(8) as ex:
            bad = [b for b in ex.map(one, jobs) if b]
        res.executions += len(jobs)
        res.validated += len(jobs) - len(bad)
        for (v, (name, d), p), r, want in bad[:2]:
            f = replay_file(outdir, "subset-%s-%s-%s.txt" % (v, name, p), "program %s (%s build), client defines %s\nran as %r\nwith every callback defined: %r\n" % (p, v, " ".join(d) or "nothing", r, want))
            res.violations.append(("program %s, %s build, client %s: ran as %r, the full client's run gives %r" % (p, v, name, r, want), f))
        if bad:
            return
        # no client at all, against no library at all
        n = 0
        plainp = [p for p in real.progs() if not re.search("^v|i|g|B|Q|N|cu|[UVKFA]$|c[ek]|X$", p)] + ["E", "R", "U", "V", "K", "F", "A", "X"]

        def plain(p):
            for k in range(5):
                a = real.run_real(out, "plain", p, scratch, "p%d" % k)
                b = real.run_real(out, "dynamic", p, scratch, "n%d" % k, client="")
                c = only_of(real.run_real(out, "static", p, scratch, "s%d" % k, app=scratch + "/app-none"), ())
                if a is not None and a == b == c:
                    return None
            return (p, a, b, c)
        with ThreadPoolExecutor(8) as ex:
            bad = [x for x in ex.map(plain, plainp) if x]
        res.executions += 3 * len(plainp)
        res.validated += 3 * (len(plainp) - len(bad))
        print("%s: %d runs of real programs validated" % (prop, res.validated))
        res.extra["real"] = {"clients": len(subs), "programs": ps, "programs_without_client_against_unmonitored": plainp}
        for p, a, b, c in bad[:2]:
            f = replay_file(outdir, "plain-%s.txt" % p, "program %s\nwithout the library: %r\nwith it and no client: %r\nlinked statically, no callback defined: %r\n" % (p, a, b, c))
            res.violations.append(("program %s without any client: %r, unmonitored %r" % (p, b if b != a else c, a), f))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---- C23

def functions(path):
    """[(lo, hi, name)] of the functions of a file, by file offset"""
    segs = []
    for l in build.sh(["readelf", "-lW", path]).splitlines():
        f = l.split()
        if f and f[0] == "LOAD":
            segs.append((int(f[2], 16), int(f[1], 16), int(f[4], 16)))   # vaddr, offset, filesz
    r = []
    for l in build.sh(["nm", "-S", path]).splitlines():
        f = l.split()
        if len(f) == 4 and f[2] in "tT":
            a, n = int(f[0], 16), int(f[1], 16)
            for va, off, sz in segs:
                if va <= a < va + sz:
                    r.append((a - va + off, a - va + off + n, f[3]))
    return r


def frames(prop, tier, res, outdir):
    out = real.build_real()
    scratch = tempfile.mkdtemp(prefix="verif-frames-")
    try:
        for variant in ("dynamic", "static"):
            o = os.path.join(scratch, variant)
            cmd = [out + "/frames-" + variant]
            if variant == "dynamic":
                cmd = [out + "/inst/bin/monitor-run", "-i", out + "/client.so"] + cmd
            rc = subprocess.run(cmd, env={"PATH": "/usr/bin:/bin", "FRAMES_OUT": o}, cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                stderr=subprocess.DEVNULL, timeout=300).returncode
            text = open(o).read() if os.path.exists(o) else ""
            bad = ["the program ended with %d" % rc] if rc else []
            if not text.rstrip().endswith("end"):
                bad.append("the program did not finish")
            bad += frames_check(text, variant, res)
            if bad:
                f = replay_file(outdir, "frames-%s.txt" % variant, "command: FRAMES_OUT=FILE %s\n%s\n\n%s" % (" ".join(cmd), "\n".join(bad), text))
                res.violations += [("%s build: %s" % (variant, b), f) for b in bad[:5]]
                return
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def frames_check(text, variant, res):
    bad, ctx, cur = [], [], None
    for l in text.splitlines():
        f = l.split(" ")
        if f[0] == "context":
            cur = {"name": f[1], "kind": f[2], "process": [], "thread": [], "wide": [], "narrow": [], "ranges": [], "frame": None, "bottom": 0, "done": 0}
            ctx.append(cur)
        elif f[0] in ("process", "thread", "wide", "narrow"):
            cur[f[0]].append((int(f[1], 16), int(f[2], 16)))
        elif f[0] == "range":
            cur["ranges"].append((int(f[1], 16), int(f[2], 16), int(f[3], 16), " ".join(f[4:])))
        elif f[0] == "frame":
            cur["frame"] = (int(f[1], 16), int(f[2], 16))
        elif f[0] in ("ret", "bottom"):
            cur[f[0]] = int(f[1], 16)
        elif f[0] == "done":
            cur["done"] = 1
        elif f[0] == "childstatus":
            bad.append("a forked child ended with %s" % f[1])
    want = {"main", "thread", "nested-thread", "child-of-thread", "thread-of-child", "child-of-main"} | ({"constructor-thread"} if variant == "dynamic" else set())
    if {c["name"] for c in ctx if c["done"]} != want:
        bad.append("contexts seen: %s" % sorted(c["name"] for c in ctx))
        return bad
    cache = {}
    fn = {}

    def func(c, a):
        for lo, hi, off, path in c["ranges"]:
            if lo < a < hi and os.path.exists(path):
                if path not in cache:
                    cache[path] = functions(path)
                for flo, fhi, n in cache[path]:
                    if flo <= a - lo - 1 + off < fhi:
                        return (flo - off + lo + 1, fhi - off + lo + 1, n)
        return None

    def inside(iv, a):
        return any(lo <= a <= hi for lo, hi in iv)

    def cover(a, b):   # every address of a is in b
        return all(any(l2 <= l1 and h1 <= h2 for l2, h2 in b) for l1, h1 in a)

    def merge(iv):
        r = []
        for lo, hi in sorted(iv):
            if r and lo <= r[-1][1] + 1:
                r[-1] = (r[-1][0], max(hi, r[-1][1]))
            else:
                r.append((lo, hi))
        return r
    for c in ctx:
        fn[c["kind"]] = func(c, c["ret"])
    for c in ctx:
        w = "in context %s: " % c["name"]
        res.executions += 1
        n = sum(hi - lo + 1 for lo, hi, _, _ in c["ranges"])
        res.states += n
        res.transitions += 4 * n
        own, other = ("process", "thread") if c["kind"] == "main" else ("thread", "process")
        for p, v in (("wide", True), ("narrow", True), (own, True), (other, False)):
            if inside(c[p], c["ret"]) != v:
                bad.append(w + "predicate %s is %s for the return address of the application's %s" % (p, not v, "main" if own == "process" else "start routine"))
        if not cover(c["narrow"], c["wide"]):
            bad.append(w + "narrow holds where wide does not")
        if merge(c["wide"]) != merge(c["process"] + c["thread"]):
            bad.append(w + "wide is not the union of the bottom-frame predicates")
        if any(l1 <= h2 and l2 <= h1 for l1, h1 in c["process"] for l2, h2 in c["thread"]):
            bad.append(w + "both bottom-frame predicates hold for one address")
        for p, k in (("process", "main"), ("thread", "thread")):
            f = fn.get(k)
            if f is None:
                bad.append(w + "the caller of the application's function is in no function of the library")
            elif not all(f[0] <= lo and hi < f[1] for lo, hi in c[p]):
                bad.append(w + "predicate %s holds outside %s" % (p, f[2]))
        if not c["frame"]:
            bad.append(w + "the stack cannot be unwound past the application's bottom function")
        elif not c["frame"][0] <= c["bottom"] < c["frame"][1]:
            bad.append(w + "monitor_stack_bottom gives %x, the bottom frame is %x-%x" % ((c["bottom"],) + c["frame"]))
    res.runs.append({"scenario": "frames", "build": variant, "contexts": len(ctx), "addresses": sum(hi - lo + 1 for lo, hi, _, _ in ctx[0]["ranges"])})
    if len(res.samples) < 4:
        c = ctx[-1]
        res.samples.append({"context": c["name"], "build": variant, "ret": hex(c["ret"]), "narrow": [[hex(x) for x in y] for y in c["narrow"]], "wide": [[hex(x) for x in y] for y in c["wide"]]})
    return bad


# ---- C24

ARGS = ["a b", "", "*", "-i", "$HOME", "it's \"q\"", "--", "-lm", "\\", "a\nb", "-d", "`x`"]


def run_script(cmd, env, cwd, stub_out):
    """(exit status, [(argv, LD_PRELOAD, MONITOR_DEBUG, OTHER)] of the commands run)"""
    if os.path.exists(stub_out):
        os.unlink(stub_out)
    p = subprocess.run(cmd, env=dict(env, STUB_OUT=stub_out, PATH="/usr/bin:/bin"), cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    runs = []
    if os.path.exists(stub_out):
        for rec in open(stub_out, encoding="utf8", newline="").read().split("\2")[:-1]:
            a, e = rec.split("\1")
            ev = [None if x == "-" else x[1:] for x in e.split("\0")[:-1]]
            runs.append((a.split("\0")[:-1],) + tuple(ev))
    return p.returncode, runs


def seqs(items, n):
    for k in range(n + 1):
        yield from itertools.product(items, repeat=k)


def ref_run(opts, cmd, preload, lib, cwd):
    """what monitor-run must do: None (nothing runs, refused), 'none' (nothing runs), or (argv, preload list, debug)"""
    files, debug, end = [], None, False
    for o in opts:
        if o[0] in ("-d", "--debug"):
            debug = "1"
        elif o[0] in ("-h", "--help"):
            return "none"
        elif o[0] in ("-i", "--insert"):
            if o[1] in ("no/such.so", "sub"):
                return None
            files.append(o[1] if o[1].startswith("/") else cwd + "/" + o[1])
        elif o[0] == "-x":
            return None
        elif o[0] == "--":
            end = True
            break
    return (list(cmd), files + [lib] + [x for x in (preload or "").split(":") if x], debug)


def scripts(prop, tier, res, outdir):
    out = real.build_real()
    bind, lib = out + "/inst/bin", out + "/inst/lib/libmonitor.so"
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="verif-scripts-"))
    try:
        cwd = scratch + "/work dir"
        os.makedirs(cwd + "/sub")
        for f in ("one.so", "two 2.so", "sub/three.so", "*.so", "-i", " x.so ", "$HOME", "a.o", "b.o"):
            open(cwd + "/" + f, "w").close()
        so = cwd + "/two 2.so"
        stub = scratch + "/stub"
        shutil.copy(out + "/stub", stub)
        real_so = out + "/client.so"
        depth = 4 if tier == "quick" else 5
        OPT = [("-d",), ("--debug",), ("-i", "one.so"), ("--insert", so), ("-i", "sub/three.so"), ("-i", "no/such.so"), ("-x",), ("--",), ("-h",)]
        jobs = []
        cmds = [[stub]] + [[stub, a] for a in ARGS] + [[stub, a, b] for a in ARGS for b in ARGS]
        small = [[stub], [stub, "a b", "", "-d"]]
        for opts in seqs(OPT, depth):
            # nothing after -- is an option
            if any(o[0] == "--" for o in opts[:-1]):
                continue
            for c in small:
                jobs.append(("run", opts, c, None, 0))
        for c in cmds + ([[stub, a, b, d] for a in ARGS for b in ARGS for d in ARGS] if tier != "quick" else []):
            for opts in ((), (("-i", "one.so"), ("--",))):
                jobs.append(("run", opts, c, None, 0))
        for pre in (None, "", real_so, real_so + ":" + real_so):
            for rc in (0, 1, 7, 255, -15, -9):
                for opts in ((), (("-i", "one.so"),), (("-d",), ("-i", so), ("-i", "*.so"))):
                    jobs.append(("run", opts, [stub, "x"], pre, rc))
        for f in ("one.so", "./one.so", "sub/../one.so", "-i", " x.so ", "$HOME", "*.so", so, "sub", "no/such.so"):
            for g in ("one.so", "-i", "no/such.so"):
                for c in small:
                    jobs.append(("run", (("-i", f), ("--insert", g)), c, real_so, 3))
        # missing arguments, and nothing to run
        for opts in seqs([("-d",), ("-i", "one.so")], 2):
            for tail in (["-i"], ["--insert"], ["-i", ""], []):
                jobs.append(("bad", opts, tail, None, 0))
        wraps = sorted({l.split()[2][7:] for l in build.sh(["nm", out + "/inst/lib/libmonitor_wrap.a"]).splitlines() if len(l.split()) == 3 and l.split()[1] in "TtW" and "__wrap_" in l})
        wlib = out + "/inst/lib/libmonitor_wrap.a"
        LOPT = [("-i", "a.o"), ("--insert", "/abs/b.o"), ("-u", "foo"), ("--undefined", "bar"), ("-w", "foo"), ("--wrap", "baz"), ("-v",), ("--verbose",), ("-x",), ("--",), ("-h",)]
        LARGS = [a for a in ARGS if a] + ["-l", "-lpthread", "x.c", "-Wl,-lfoo"]
        for opts in seqs(LOPT, depth - 1):
            if any(o[0] == "--" for o in opts[:-1]):
                continue
            jobs.append(("link", opts, [stub, "x.c", "-lm", "a b", ""], None, 0))
        for a in LARGS:
            for opts in ((), (("-i", "a.o"), ("-w", "foo"), ("--",))):
                jobs.append(("link", opts, [stub, a], None, 0))
                for b in LARGS + [""]:
                    jobs.append(("link", opts, [stub, a, b], None, 0))
                    if tier != "quick":
                        for c in LARGS + [""]:
                            jobs.append(("link", opts, [stub, a, b, c], None, 0))
        for rc in (0, 1, 7, 255, -15):
            jobs.append(("link", (("-i", "a.o"),), [stub, "x.c"], None, rc))
        for opts in seqs([("-v",), ("-i", "a.o")], 1):
            for tail in (["-i"], ["--insert"], ["-u"], ["-w", ""], [], [stub]):
                jobs.append(("badlink", opts, tail, None, 0))

        def one(n):
            kind, opts, cmd, pre, rc = jobs[n]
            env = {"OTHER": "o ther", "HOME": "/nowhere"}
            if pre is not None:
                env["LD_PRELOAD"] = pre
            if rc:
                env["STUB_END"] = str(rc)
            flat = [x for o in opts for x in o]
            script = bind + ("/monitor-link" if "link" in kind else "/monitor-run")
            argv = [script] + flat + cmd
            st, runs = run_script(argv, env, cwd, "%s/out-%d" % (scratch, n))
            if os.path.exists("%s/out-%d" % (scratch, n)):
                os.unlink("%s/out-%d" % (scratch, n))
            why = judge(kind, opts, cmd, pre, rc, st, runs)
            return why and (argv, env, why)

        def judge(kind, opts, cmd, pre, rc, st, runs):
            if kind == "bad" or kind == "badlink":
                if runs:
                    return "a command ran: %r" % (runs,)
                if cmd and cmd[0].startswith("-") and st == 0:
                    return "not refused"
                return None
            if kind == "run":
                ref = ref_run(opts, cmd, pre, lib, cwd)
            else:
                ref = "x"
                for o in opts:
                    if o[0] == "-h":
                        ref = "none"
                        break
                    if o[0] == "-x":
                        ref = None
                        break
            if ref == "none":
                return "a command ran: %r" % (runs,) if runs else None
            if ref is None:
                return "a command ran: %r" % (runs,) if runs else "not refused" if st == 0 else None
            if len(runs) != 1:
                return "%d commands ran" % len(runs)
            argv, p, dbg, oth = runs[0]
            if st != rc and not (rc < 0 and st == 128 - rc):
                return "exit status %d, the command's was %d" % (st, rc)
            if oth != "o ther":
                return "the environment was changed"
            if kind == "run":
                if argv != ref[0]:
                    return "the command got %r" % (argv,)
                if [x for x in (p or "").split(":") if x] != ref[1]:
                    return "LD_PRELOAD is %r" % p
                if dbg != ref[2]:
                    return "MONITOR_DEBUG is %r" % dbg
                return None
            user = cmd[1:]
            ins = [o[1] for o in opts if o[0] in ("-i", "--insert")]
            suffix = ins + [wlib] + [a for a in user if a.startswith("-l") and len(a) > 2]
            pre_ = argv[1:len(argv) - len(user) - len(suffix)]
            if argv[:1] != cmd[:1] or argv[1 + len(pre_):] != user + suffix:
                return "the compiler got %r" % (argv,)
            want = {"-Wl,--wrap=" + w for w in wraps + [o[1] for o in opts if o[0] in ("-w", "--wrap")]} | {"-Wl,--undefined=__wrap_" + o[1] for o in opts if o[0] in ("-u", "--undefined")}
            if set(pre_) != want:
                return "options before the user's: missing %s, unexpected %s" % (sorted(want - set(pre_)), sorted(set(pre_) - want))
            return None
        with ThreadPoolExecutor(8) as ex:
            bad = [b for b in ex.map(one, range(len(jobs))) if b]
        res.executions += len(jobs)
        res.states += len({(j[0], j[1]) for j in jobs})
        res.transitions += sum(len(j[1]) + len(j[2]) for j in jobs)
        res.validated += len(jobs) - len(bad)
        for k in ("run", "bad", "link", "badlink"):
            res.runs.append({"scenario": "scripts", "what": k, "option_sequences": len({j[1] for j in jobs if j[0] == k}), "executions": sum(j[0] == k for j in jobs), "depth": depth})
        res.samples.append({"kind": jobs[-1][0], "options": jobs[-1][1], "command": jobs[-1][2]})
        for argv, env, why in bad[:3]:
            f = replay_file(outdir, "script.txt", "in a directory with the files of extra.scripts: %r, environment %r: %s\n" % (argv, env, why))
            res.violations.append(("%r: %s" % ([os.path.basename(argv[0])] + argv[1:], why), f))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---- C27 and C28
from link import link
from parts import parts
