"""Which scenarios decide which property, and how many runs of each (the quick tier does three times, the thorough tier 60 times as many)."""
P_ = {"defer": 0, "recover": 1, "route": 2, "memory": 3, "oom": 4, "uncaught": 5, "signal": 6, "threads": 7, "protect": 8, "cancel": 9,
      "fut": 10, "spawn": 11, "futexc": 12, "futdefer": 13, "futfault": 14, "args": 15, "hooks": 16}
def prog(**kw): return [("prog", P_[k], n) for k, n in kw.items()]
PLAN = {
    "C01": dict(runs=prog(fut=24000, spawn=12000, futdefer=6000, futexc=6000)),
    "C02": dict(runs=prog(fut=20000, spawn=14000, futfault=10000)),
    "C03": dict(runs=prog(futexc=28000, fut=6000, futfault=6000, spawn=6000)),
    "C04": dict(runs=prog(spawn=30000, futexc=10000, futfault=6000)),
    "C05": dict(runs=prog(futdefer=34000, fut=6000, futexc=6000)),
    "C06": dict(runs=prog(defer=60000, recover=20000, memory=20000, threads=10000)),
    "C07": dict(runs=prog(recover=80000, defer=20000, signal=10000)),
    "C08": dict(runs=prog(route=80000, signal=20000, recover=10000, protect=10000)),
    "C09": dict(runs=prog(memory=70000, cancel=15000, threads=10000, recover=10000)),
    "C10": dict(runs=prog(oom=60000, futfault=16000, args=20000) + [("arena", 0, 8000), ("text", 0, 6000)]),
    "C11": dict(runs=prog(uncaught=90000, recover=10000, signal=10000)),
    "C12": dict(runs=prog(signal=80000, route=10000, uncaught=10000, threads=8000)),
    "C13": dict(runs=prog(threads=40000, fut=8000)),
    "C14": dict(runs=[("arena", 0, 26000), ("arena", 1, 26000), ("arena", 2, 1)]),
    "C15": dict(runs=[("atomic", 0, 60000), ("atomic", 1, 1)]),
    "C16": dict(runs=[("tls", 0, 60000)] + prog(threads=6000)),
    "C17": dict(runs=prog(args=60000, fut=8000, spawn=6000, futfault=6000)),
    "C18": dict(runs=prog(protect=90000, recover=10000, threads=6000)),
    "C19": dict(runs=prog(cancel=80000, defer=10000, threads=8000)),
    "C21": dict(runs=[("text", 0, 60000), ("text", 1, 40000)]),
    "C22": dict(runs=[("text", 2, 60000), ("text", 3, 40000)]),
    "C23": dict(runs=prog(hooks=80000)),
    "C20": dict(runs=prog(futfault=40000)),
}
# of four parts of the runs of a scenario, this many execute the release configuration of the library
RELEASE_SHARE = 1
SCENARIO_TEXT = {("prog", v): "random programs of guards, try blocks, deferred functions, allocations and errors, weighted for: " + k for k, v in P_.items()}
SCENARIO_TEXT.update({
    ("arena", 0): "random use of several arenas and scopes with arenas, in one thread, with failing allocations",
    ("arena", 1): "several threads with arenas of their own, some handed over at start or after the end of a thread",
    ("arena", 2): "the known finding about arena_clear, a fixed sequence",
    ("atomic", 0): "several threads with random operations on shared atomics, spin locks, flags and published data",
    ("atomic", 1): "the known finding about atomics narrower than 64 bits, a fixed operation",
    ("text", 0): "one thread: texts split, joined, replaced, encoded and compared, the results owned by nested guards, scope objects, the thread or the caller, with failing allocations",
    ("text", 1): "several threads doing so at the same time, on inputs they share",
    ("text", 2): "one thread: bytes searched and numbers converted, mixed with texts",
    ("text", 3): "several threads doing so at the same time, interrupted inside the functions",
    ("tls", 0): "several generations of threads using thread-local variables"})
FAULT_TEXT = dict(
    alloc_null="an allocation made by the library returns NULL", thread_create_fail="creation of a thread is refused (error or no memory)",
    signal_raised="a signal raised by the program", thread_stalled="a thread gets no turn for a long while although it could run",
    sleep_simulated="a sleep, passed in simulated time", cpu_count_varied="number of CPUs the system reports",
    tss_create_fail="thread-specific storage is refused", hardware_trap="division by zero or access through NULL by the program",
    weak_cas_failed="a weak compare-and-exchange fails although the value matches",
    affinity_unreadable="the system does not tell on which CPUs the process may run",
    user_exception="an exception or panic thrown by the program")
