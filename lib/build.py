"""Builds the library under test from /repo/src for the simulator, and the simulator itself."""
import os, re, subprocess, hashlib, glob, sys, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def par(cmds):
    """run commands in parallel, raise on the first failure"""
    todo = list(cmds)
    running = []
    err = None
    while todo or running:
        while todo and len(running) < 8:
            c = todo.pop(0)
            running.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        c, p = running.pop(0)
        out, _ = p.communicate()
        if p.returncode and not err:
            err = BuildError("%s\n%s" % (" ".join(c), out[-4000:]))
            todo = []
    if err:
        raise err


def build_sim():
    """the simulator; returns path"""
    srcs = sorted(glob.glob(VERIF + "/sim/*.cc"))
    hdrs = sorted(glob.glob(VERIF + "/sim/*.h") + glob.glob(VERIF + "/real/*.h"))
    d = digest(srcs + hdrs)
    out = os.path.join(BUILD, "sim-" + d)
    exe = os.path.join(out, "monsim")
    with lock():
        if os.path.exists(exe):
            return exe
        for old in glob.glob(BUILD + "/sim-*"):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        objs = [os.path.join(out, os.path.basename(s)[:-3] + ".o") for s in srcs]
        par([["g++", "-std=c++17", "-O2", "-g1", "-Wall", "-Wno-unused-function", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE",
              "-fno-stack-protector", "-c", s, "-o", o] for s, o in zip(srcs, objs)])
        sh(["g++", "-rdynamic", "-o", exe + ".tmp"] + objs + ["-ldl", "-lpthread"])
        os.rename(exe + ".tmp", exe)
    return exe


def sim_exports(exe):
    out = sh(["nm", "-D", "--defined-only", exe])
    return {l.split()[-1][4:] for l in out.splitlines() if l.split()[-1].startswith("sim_")}


def nm(obj):
    d, u = set(), set()
    for l in sh(["nm", obj]).splitlines():
        f = l.split()
        if len(f) >= 2 and f[-2] in ("U", "w", "v") and len(f) == 2:
            u.add(f[-1])
        elif len(f) == 3 and f[1].isupper() or (len(f) == 3 and f[1] in "wv"):
            d.add(f[2])
    return d, u


BASE_CFLAGS = ["-g1", "-fPIC", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fstack-protector-strong", "-w", "-DUSE_GNU_ATOMIC_OPS"]


def write_config(path, client_signals="", config_shootdown=0):
    with open(VERIF + "/cfg/config.h") as f:
        t = f.read()
    o = []
    for l in t.splitlines():
        if l.startswith("#define MONITOR_CLIENT_SIGNALS_LIST"):
            l = "#define MONITOR_CLIENT_SIGNALS_LIST " + client_signals
        if l.startswith("#define MONITOR_CONFIG_SHOOTDOWN_SIGNAL"):
            l = "#define MONITOR_CONFIG_SHOOTDOWN_SIGNAL %d" % config_shootdown
        o.append(l)
    with open(path, "w") as f:
        f.write("\n".join(o) + "\n")


CTORS_C = """
typedef void fn(int, char **, char **);
extern fn *__start_mon_ctors[] __attribute__((weak)), *__stop_mon_ctors[] __attribute__((weak));
extern void (*__start_mon_dtors[])(void) __attribute__((weak)), (*__stop_mon_dtors[])(void) __attribute__((weak));
void mon_run_ctors(void) { for (fn **p = __start_mon_ctors; p < __stop_mon_ctors; p++) if (*p) (*p)(0, 0, 0); }
void mon_run_dtors(void) { for (void (**p)(void) = __stop_mon_dtors; p > __start_mon_dtors; ) { --p; if (*p) (*p)(); } }
extern char *__start_mon_rz[] __attribute__((weak)), *__stop_mon_rz[] __attribute__((weak));
int mon_redzones(char ***p) { *p = __start_mon_rz; return __stop_mon_rz - __start_mon_rz; }
"""


def redzones(asm):
    """every static array gets 64 bytes more, which nobody may touch; their places are listed in section mon_rz"""
    with open(asm) as f:
        t = f.read()
    zs = []

    def grow(m):
        name, n, al = m.group(1), int(m.group(2)), m.group(3)
        if n < 64:
            return m.group(0)
        zs.append((name, n))
        return "\t.comm\t%s,%d,%s" % (name, n + 64, al)
    t = re.sub(r"^\t\.comm\t([^,\s]+),(\d+),(\d+)$", grow, t, flags=re.M)
    if zs:
        t += '\t.section\tmon_rz,"aw",@progbits\n\t.align 8\n' + "".join("\t.quad\t%s+%d\n" % z for z in zs) + "\t.text\n"
    with open(asm, "w") as f:
        f.write(t)


def build_lib(exe, variant="dynamic", client_signals="", config_shootdown=0, tsan=True, opt="-O1"):
    """the library under test for the simulator; returns path of the .so"""
    srcs = sorted(glob.glob(SRC + "/*.c"))
    hdrs = sorted(glob.glob(SRC + "/*.h"))
    if variant == "static":
        srcs = [s for s in srcs if os.path.basename(s) != "pmpi.c"]
    exports = sim_exports(exe)
    d = digest(srcs + hdrs + [VERIF + "/cfg/config.h", os.path.abspath(__file__)],
               "|".join([variant, client_signals, str(config_shootdown), str(tsan), opt, ",".join(sorted(exports))]))
    tag = "lib-%s-%s" % (variant, d)
    out = os.path.join(BUILD, tag)
    so = os.path.join(out, "libmon.so")
    with lock():
        if os.path.exists(so):
            os.utime(out)
            return so
        olds = sorted(glob.glob(BUILD + "/lib-*"), key=os.path.getmtime)
        for old in olds[:-40]:
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        write_config(out + "/config.h", client_signals, config_shootdown)
        flags = BASE_CFLAGS + [opt, "-DMONITOR_" + variant.upper(), "-I" + out, "-I" + SRC]
        if tsan:
            flags += ["-fsanitize=thread,bounds,object-size"]
        objs = [os.path.join(out, os.path.basename(s)[:-2] + ".o") for s in srcs]
        par([["gcc"] + flags + ["-S", s, "-o", o[:-2] + ".s"] for s, o in zip(srcs, objs)])
        for o in objs:
            redzones(o[:-2] + ".s")
        par([["gcc", "-c", o[:-2] + ".s", "-o", o] for o in objs])
        syms = [nm(o) for o in objs]
        defined = set().union(*[s[0] for s in syms])
        over = {}  # public name -> renamed
        for s in defined:
            if variant == "static" and s.startswith("__wrap_"):
                over[s[7:]] = s
            elif variant == "dynamic" and not s.startswith("monitor_") and not s.startswith("__tsan") and not s.startswith("_GLOBAL_"):
                over[s] = s
        redef = []
        wrapf = []
        for pub, sym in over.items():
            if variant == "static":   # the real link: --wrap, with the wrapped name also reachable as mon_*
                wrapf += ["-Wl,--wrap=" + pub, "-Wl,--defsym=mon_%s=%s" % (pub, sym)]
            else:
                redef.append((sym, "mon_" + pub))
        und = set().union(*[s[1] for s in syms]) - defined
        for u in und:
            if u.startswith("__tsan") or u.startswith("__ubsan"):
                continue
            if u.startswith("__real_"):
                if u[7:] in exports:
                    redef.append((u, "sim_" + u[7:]))
            elif u.startswith("__isoc23_") or u.startswith("__isoc99_"):
                b = u[9:]
                if b in exports:
                    redef.append((u, "sim_" + b))
            elif variant == "static" and u in over:
                pass
            elif u in exports:
                redef.append((u, "sim_" + u))
        with open(out + "/redef", "w") as f:
            for a, b in sorted(redef):
                f.write("%s %s\n" % (a, b))
        cmds = []
        for o in objs:
            secs = [l.split()[1] for l in sh(["objdump", "-h", o]).splitlines() if len(l.split()) > 2 and l.split()[0].isdigit()]
            c = ["objcopy", "--redefine-syms=" + out + "/redef"]
            for s in secs:
                if s.startswith(".init_array") or s.startswith(".ctors"):
                    c += ["--rename-section", s + "=mon_ctors,alloc,load,data,contents"]
                if s.startswith(".fini_array") or s.startswith(".dtors"):
                    c += ["--rename-section", s + "=mon_dtors,alloc,load,data,contents"]
            cmds.append(c + [o])
        par(cmds)
        with open(out + "/ctors.c", "w") as f:
            f.write(CTORS_C)
        sh(["gcc", "-fPIC", "-O1", "-c", out + "/ctors.c", "-o", out + "/ctors.o"])
        sh(["gcc", "-shared", "-nostartfiles", "-Wl,-z,now", "-Wl,-z,norelro", "-o", so + ".tmp"] + wrapf + objs + [out + "/ctors.o"])
        os.rename(so + ".tmp", so)
    return so


if __name__ == "__main__":
    e = build_sim()
    print(e)
    for v in ("dynamic", "static"):
        print(build_lib(e, v))
