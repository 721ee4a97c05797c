#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree.

Exit 0: held on everything explored; 1: violated (VIOLATION line); other: the check itself failed.
VERIF_TIER=quick|thorough selects the bounds in plan.py."""
import json, os, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True
import build, plan, extra  # noqa: E402

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Result:
    def __init__(self):
        self.states = self.transitions = self.executions = self.validated = 0
        self.samples, self.runs, self.violations, self.known = [], [], [], []
        self.assumptions, self.exhaustive, self.extra = set(), True, {}


def run_scenarios(prop, tier, jobs, res, outdir, deadline):
    exe = build.build_sim()
    for n, j in enumerate(jobs):
        lib = build.build_lib(exe, j.variant, j.client_signals, j.shootdown)
        out = os.path.join(outdir, "%02d-%s-%s.json" % (n, j.scenario, j.variant))
        for f in (out,):
            if os.path.exists(f):
                os.unlink(f)
        left = max(5, int(deadline - time.time()))
        cmd = [exe, "--lib", lib, "--scenario", j.scenario, "--only", j.only or prop, "--bound", str(j.bound), "--out", out,
               "--known", KNOWN, "--time", str(min(left, j.time)), "--param", str(j.param)]
        if j.variant == "static":
            cmd.append("--static")
        if j.client_signals:
            cmd += ["--csig", j.client_signals]
        if j.shootdown:
            cmd += ["--shoot", str(j.shootdown)]
        if j.debugenv:
            cmd.append("--debugenv")
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p.stdout, end="", flush=True)
        if p.returncode not in (0, 1):
            raise RuntimeError("monsim failed on %s (%s)" % (j.scenario, j.variant))
        with open(out) as f:
            d = json.load(f)
        res.states += d["states"] or d["outcomes"]   # sequential scenarios have no scheduling states: count distinct outcomes
        res.transitions += d["transitions"]
        res.executions += d["executions"]
        if d["capped"]:
            res.exhaustive = False
        res.runs.append({k: d[k] for k in ("scenario", "what", "bound", "executions", "all_passes_executions", "states", "transitions", "pruned", "outcomes",
                                           "maxchoices", "conflict_bytes", "passes", "capped", "sim_seconds", "wall_s")})
        res.runs[-1]["build"] = j.variant + (" shootdown=%d" % j.shootdown if j.shootdown else "") + (" client_signals=%s" % j.client_signals if j.client_signals else "")
        if len(res.samples) < 4:
            res.samples.append({"scenario": d["scenario"], "build": j.variant, "execution": d["sample"]})
        for v in d["violations"]:
            res.violations.append((v["msg"], v["replay"]))
        for k in d["known"]:
            if k["prop"] == prop and k["text"] not in res.known:
                res.known.append(k["text"])
        if p.returncode == 1:
            break


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in plan.PLAN:
        print("usage: check.py <property>", file=sys.stderr)
        return 2
    prop = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)   # nothing here is random; recorded only
    t0 = time.time()
    outdir = os.path.join(VERIF, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    res = Result()
    err = None
    try:
        p = plan.PLAN[prop]
        deadline = t0 + (780 if tier == "quick" else 6 * 3600)
        run_scenarios(prop, tier, p.jobs(tier), res, outdir, deadline)
        for fn in p.extra:
            if not res.violations:
                getattr(extra, fn)(prop, tier, res, outdir)
        res.assumptions.update(p.assumptions)
    except Exception as e:  # no verdict
        err = e
        traceback.print_exc()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
          "violations": len(res.violations), "assumptions": sorted(res.assumptions),
          "coverage": dict({"states": res.states, "transitions": res.transitions, "executions": res.executions,
                            "traces_validated_against_impl": res.validated, "exhaustive": bool(res.exhaustive and not err),
                            "runs": res.runs, "samples": res.samples, "known_findings": res.known}, **res.extra)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in res.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if res.violations:
        for msg, _ in res.violations[:5]:
            print("  " + msg.strip())
        print("VIOLATION property=%s replay=%s" % (prop, res.violations[0][1]))
        return 1
    if err:
        print("%s: no verdict: %s" % (prop, err), file=sys.stderr)
        return 3
    print("%s: held on %d executions (%d states, %d transitions), %.1f s" % (prop, res.executions, res.states, res.transitions, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
