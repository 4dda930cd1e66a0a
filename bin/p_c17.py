from vlib import corrupt_first, HARN
from sweeps import T, ASSUME
M = "sweep/MCSignal"
ACTS = ["Request", "Begin", "Recentre", "Load", "Update", "Dump", "Check", "Swept", "Last"]
def body(c):
    sites = (1, 2, 4)
    exes = c.build_many([dict(name="c17-%d" % k, src="c13.cc", inc=[HARN + "/stub"], libs=["-lpthread", "-ldl"], flags=["-DALGS=8", "-DSITES=%d" % k]) for k in sites])
    c.design(M, M if c.quick else M + "Deep", cover=ACTS, heap="6g")
    jobs = {}
    for i in range(8 if c.quick else 48):
        k = (0, 0, 0, 1, 0, 2, 0, 0)[i % 8]
        jobs[c.path("signals%d.ndjson" % i)] = (exes[k], ["signals", c.seed * 7919 + i, (1 if k else 2) if c.quick else 4, (7 if k else 4) if c.quick else 1, "C17"])
    rec = c.record_all(jobs, timeout=600)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[0], corrupt_first(r'("e":"done".*?"whole":)true', r'\g<1>false'))
    c.assumptions += ASSUME[:2] + [
        "a request is raised in the optimiser's own thread at every file operation and every line of output of a run (some of them in the quick check); no file is half-written when it arrives",
        "after an emergency stop the state is centred again before the next run", ASSUME[-1]]
