"""Shared by the checks of the sweeping optimisers: the schedule specification, its exported histories, recorded runs."""
import json
from vlib import exported, corrupt_first, HARN
T, M = "sweep/TraceSweep", "sweep/MCSweep"
ACTS = ["MBegin", "MLoad", "MUpdate", "MDump", "MEnd"]
def run(c, algs, replay=(), random=(), split=(), agree=False, shift=(), quick_segs=40, quick_split=24, quick_stride=1):
    """replay: algorithms for which the exported histories are executed; random/split: algorithms to draw histories for."""
    sites = (1, 2, 4)
    exes = c.build_many([dict(name="c13-%d" % k, src="c13.cc", inc=[HARN + "/stub"], libs=["-lpthread", "-ldl"], flags=["-DALGS=%d" % algs, "-DSITES=%d" % k]) for k in sites])
    exe, share = exes[0], {1: 8, 2: 3, 4: 5}
    jobs, judge = {}, c.pid
    progs = exported(c.design(M, M if c.quick else M + "Deep", workers=1, cover=ACTS)["out"])
    progs = sorted(set(progs))
    by = {"pair": ["vmps"], "single": ["single"], "bound": ["bound", "dmrg"]}
    progs = [dict(json.loads(p), alg=a) for p in progs for a in by[json.loads(p)["kind"]] if a in replay]
    if c.quick:
        by_alg = {}
        for p in progs: by_alg.setdefault(p["alg"], []).append(p)
        progs = [p for a, ps in by_alg.items() for p in (lambda q: ps[c.seed % q::q])(2 if a == "dmrg" and quick_stride > 1 else quick_stride)]
    if progs:
        pf = c.path("programs.ndjson")
        open(pf, "w").write("".join(json.dumps(p) + "\n" for p in progs))
        k = 8 if c.quick else 48
        step = (len(progs) + k - 1) // k
        for i in range(k):
            jobs[c.path("replay%d.ndjson" % i)] = (exe, ["replay", pf, i * step, (i + 1) * step, judge])
        c.notes["replayed_spec_histories"] = len(progs)
        c.sample(progs[-1])
    def add(name, exe_args, n):
        for k, x in zip(sites, exes):
            m, a = exe_args
            jobs[c.path("%s-%d.ndjson" % (name, k))] = (x, [m, c.seed * 7919 + 1013 * len(jobs), n * share[k] // 16] + a)
    for rep in range(1 if c.quick else 6):
        for i, a in enumerate(random):
            add("%s%d_%d" % (a, rep, i), ("random", [a, judge]), quick_segs if c.quick else 8 * quick_segs)
        for i, a in enumerate(split):
            add("split-%s%d_%d" % (a, rep, i), ("split", [a, judge]), (1 if c.quick else 5) * quick_split)
        for i, a in enumerate(shift):
            jobs[c.path("shift-%s%d_%d.ndjson" % (a, rep, i))] = (exe, ["shift", c.seed * 7919 + 1013 * len(jobs), 12 if c.quick else 60, a, judge])
        for i in range(2 if agree else 0):
            add("agree%d_%d" % (rep, i), ("agree", ["x", judge]), (1 if c.quick else 5) * quick_split)
    rec = c.record_all(jobs)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    return exe, ts
ASSUME = ["random Hermitian chains of 3-7 sites (spin 1/2, spin 1 mixed in, t-J; real and complex elements), blocks, states and energies compared with dense linear algebra",
          "the temporary directory belongs to one algorithm; two-site algorithms on 3 or more sites; the state starts with its centre at the first site or where the previous run left it",
          "energy rules of an update apply where the Lanczos solver was allowed to converge and its start overlaps with the lowest local state",
          "TensorToolkit replaced by the stand-in in harness/stub (bosonic)"]
