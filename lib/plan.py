"""Which scenarios decide which property, with which bounds."""
from dataclasses import dataclass, field

SIM = ["the simulated operating system (sim/os.cc) behaves as Linux/glibc do for the calls libmonitor makes",
       "sequentially consistent memory: the library is explored with its accesses interleaved, not reordered",
       "schedules with at most `bound` departures from the default (preemptions, early wake-ups, timer order), plus every program choice"]


@dataclass
class Job:
    scenario: str
    bound: int = 1
    variant: str = "dynamic"
    client_signals: str = ""
    shootdown: int = 0
    param: int = 0
    only: str = ""
    time: int = 100000
    debugenv: bool = False


@dataclass
class P:
    scn: list = field(default_factory=list)      # (scenario, quick bound, thorough bound, variants, keyword arguments)
    extra: list = field(default_factory=list)
    assumptions: list = field(default_factory=lambda: list(SIM))
    technique: str = "stateless model checking of the real code: all schedules within a preemption bound, in a simulated OS"
    note: str = ("Every schedule of the compiled library within the stated bound of preemptions (and every program of the scenario's family) is executed "
                 "and checked; beyond the bound nothing is claimed. Trusts the simulated OS, sequential consistency and the scenario families.")

    def jobs(self, tier):
        r = []
        for s in self.scn:
            name, qb, tb, var = s[0], s[1], s[2], s[3]
            kw = s[4] if len(s) > 4 else {}
            b = qb if tier == "quick" else tb
            if b < 0:
                continue
            for v in {"d": ["dynamic"], "s": ["static"], "b": ["dynamic", "static"]}[var]:
                r.append(Job(name, b, v, **kw))
        return r


EXIT = ["exit0", "exit1", "exit2", "exit_race", "exit_slow", "exit_again", "exit_detached", "exit_detached1", "exit_joined", "exit_cancel", "exit_acancel", "exit_xcancel", "exit_infini", "exit_killed", "exit_endblocked", "exit_create", "exit_read"]
FORK = ["fork0", "fork1", "fork_side", "fork_ignored", "fork_atexit", "fork_handler", "fork_parent", "fork_real", "fork_race"]


def S(names, qb=1, tb=2, var="b", **kw):
    return [(n, qb, tb, var, kw) for n in names]


THREAD = (S(["thr_ops"], 0, 0) + S(["thr_ops"], -1, 0, param=4) + S(["thr_ops_race"], 1, 1, "d") + S(["thr_faults", "thr_many", "thr_client", "thr_stack"], 0, 1) + S(["thr_id", "thr_id3", "thr_ignored", "thr_early", "thr_race"]))

# configurations: (client signals, shootdown signal) given to configure
RT = ", ".join(str(n) for n in range(42, 57)) + ","
SHOOT = [("", 10), ("", 9), ("", 20), ("", 32), ("", 64), ("42,", 0), ("42, 43,", 0), (RT, 0), (RT + " 12,", 0), (RT + " 12, 10,", 0), (RT + " 12, 10, 30,", 0),
         (RT + " 12, 10, 30, 23,", 0), (RT + " 12, 10, 30, 23, 13,", 0), (RT + " 12, 10, 30, 23, 13, 28,", 0), ("27, 40,", 27), ("42, 56,", 42)]

NOT_APPLICABLE = {}

LATE = S(["exit_late"], 0, 1)

PLAN = {
    "C01": P(S(EXIT) + LATE),
    "C02": P(S(EXIT) + S(["exit_late"])),
    "C03": P(S(EXIT) + LATE + S(["bc_killed"])),
    "C04": P(THREAD),
    "C05": P(THREAD),
    "C06": P(THREAD),
    "C07": P(S([f for f in FORK if f != "fork_real"])),
    "C08": P(S(FORK)),
    "C09": P(S(["exec_path", "exec_file", "exec_args"], 0, 1) + S(["exec_seq"], 0, 0) + S(["exec_seq"], -1, 0, param=4) + S(["exec_thread", "exec_race"])),
    "C10": P(S(["system", "system_null", "system_no"], 0, 1) + S(["system_seq"], 0, 0) + S(["real_sys_env"], 0, 0, param=1)
             + S(["system_race"], 1, 2) + S(["system_fork"], 2, 4) + S(["system_cancel"], 1, 2)),
    "C11": P(S(["sig_hist"], 0, 0) + S(["sig_hist"], -1, 0, param=4) + S(["sig_nest", "sig_nums"], 0, 1) + S(["sig_hist"], 0, 0, "d", param=2, client_signals="10, 27, 44,")
             + S(["sig_nest", "sig_nums"], 0, 0, "d", client_signals="12, 27, 42, 50,", shootdown=40) + S(["sig_race"], 2, 4)),
    "C12": P(S(["sig_default"], 0, 1) + S(["sig_hist"], 0, 0, param=2) + S(["sig_fatal"], 1, 2) + S(["exit_killed"], 1, 2)),
    "C13": P(S(["mask_seq"], 0, 0) + S(["mask_seq"], -1, 0, "d", param=3) + S(["mask_one"], 0, 0) + S(["mask_seq", "mask_one"], 0, 0, "d", client_signals="10, 27, 44,") + S(["mask_one"], 0, 0, "s", client_signals="1, 12, 42, 64,", shootdown=40) + S(["mask_race"], 2, 3)),
    "C14": P(S(["wait_answers"], 0, 0) + S(["wait_answers"], -1, 0, param=6) + S(["wait_real"], 1, 2) + S(["wait_exit", "wait_race"], 1, 2)),
    "C15": P(S(["start", "thr_client"], 0, 1) + S(["thr_early"], 1, 2)),
    "C16": P(S(EXIT, var="d") + LATE + S(FORK, var="d")),
    "C17": P(S(["mpi_tree"], 0, 0) + S(["mpi_hist"], 0, 0, param=2) + S(["mpi_tree"], -1, 0, param=3) + S(["mpi_hist"], -1, 0, param=3)),
    "C18": P(S(["mpi_hist"], 0, 0, param=2) + S(["mpi_hist"], 0, 0, "s", param=3) + S(["mpi_rank"], 0, 0) + S(["mpi_race"], 2, 4) + S(["mpi_hist"], -1, 0, "d", param=3)),
    "C19": P(S(["dl_tree"], 0, 0, param=1) + S(["dl_race"], 2, 4) + S(["dl_tree"], -1, 0, param=2)),
    "C20": P(S(["shootdown"], 0, 1) + [j for c, sd in SHOOT for j in S(["shootdown"], 0, 0, "d", client_signals=c, shootdown=sd)]),
    "C21": P(S(["bc"], 1, 2) + S(["bc"], -1, 1, param=2) + S(["bc_quiet"], 0, 1) + S(["bc_fork", "bc_killed", "bc_race"], 1, 2)),
    "C22": P(S(["system"], 0, 1, param=1) + S(["system_seq", "real_env", "real_sys_env", "real"], 0, 1) + S(["fork_real", "fork_cb"]) + S(["real_race"], 2, 4)),
    "C23": P([], extra=["frames"], assumptions=["the library is built by its own configure and make with gcc for x86-64"],
             technique="exhaustive enumeration of every executable address of the process against the predicates, in every kind of thread and process, on the real library",
             note="Every byte of every executable mapping is given to the four predicates in 6-7 contexts of the preloaded and the static build; function bounds come from the symbol table. Holds for this compiler and platform."),
    "C24": P([], extra=["scripts"], assumptions=["/bin/sh is the sandbox's dash", "compiler commands, inserted files and symbol names without blanks or wildcards for monitor-link"],
             technique="exhaustive enumeration of option sequences and argument lists up to a depth, on the real scripts with a recording command, against a reference",
             note="All sequences of up to 4 (thorough: 5) options of monitor-run and one fewer of monitor-link, and all argument lists of up to 2 (thorough: 3) from an alphabet of awkward strings are run on the installed scripts."),
    "C25": P([], extra=["subsets_sim", "subsets_real"], technique="stateless model checking of the real code in a simulated OS for every client of a family of callback subsets, with the other properties' oracles; exhaustive enumeration of real clients and programs",
             note="Clients that define all, none, exactly one and all but one callback, in 20 scenario families of the simulator and 39 real clients per build; the callbacks are independent weak symbols, so larger mixtures are not enumerated."),
    "C26": P([], extra=["debug_sim", "debug_real"], technique="stateless model checking of the real code in a simulated OS with debug output on, against the other properties' oracles and, event by event, against the exploration without it",
             note="Every scenario of the other properties at small bounds with MONITOR_DEBUG; single-threaded scenarios must have the identical set of event sequences with and without. Each message overwrites errno."),
    "C27": P([], extra=["link"], assumptions=["glibc's dynamic linker, on this platform"],
             technique="exhaustive enumeration of link maps (places and orders of the definitions), each run on the real library and dynamic linker, against a reference of the search rule",
             note="Every placement of two stand-in MPI libraries in six places, with an interposer before or after, a tool linked with libmonitor, and ten language bindings; C library functions with one wrapper library before or after."),
    "C28": P([], extra=["parts"], assumptions=["gcc, GNU ld and glibc on x86-64"],
             technique="exhaustive enumeration of build configurations and of the sets of parts a program uses, each built and run for real, against a model of its event trace",
             note="All 32 subsets of the optional parts that configure knows, times all 32 sets of parts used, preloaded and linked statically; one program per set."),
}

for _p, _q in PLAN.items():
    import extra as _e
    if _p in _e.CONF:
        _q.extra.append("conf")
PLAN["C20"].extra.append("shootenv")
