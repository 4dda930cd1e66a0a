"""Optimisation and evolution on several ranks: results and stored state as on one, messages as the specification of the pools allows."""
import json, re
from vlib import exported, corrupt_first, HARN
import sweeps
T, M, D = "sweep/TraceSweep", "mpi/MCMpi", "mpi/TraceMpi"
ACTS = ["Order", "Item", "Send", "Recv", "Bcast", "Put", "Get", "Done"]
ALGS = ("mvmps", "mnoise", "mdmrg")
def body(c):
    sites = (1, 2, 4, 8)
    inc, libs = [HARN + "/stub"], ["-lpthread", "-ldl"]
    exes = c.build_many([dict(name="c20-%d" % k, src="c13.cc", inc=inc, libs=libs, flags=["-DDIST", "-DALGS=9", "-DSITES=%d" % k]) for k in sites]
                        + [dict(name="c20-tdvp", src="c19.cc", inc=inc, libs=libs, flags=["-DDIST"])])
    tdvp = exes.pop()
    for cfg in ["", "Ops", "Tdvp"] + ([] if c.quick else ["Deep", "OpsDeep", "Wide"]):
        c.design(M, M + cfg, workers=4, cover=ACTS)
    share = {1: 7, 2: 2, 4: 4, 8: 5}
    jobs, evo = {}, {}
    progs = sorted(set(exported(c.design(sweeps.M, sweeps.M if c.quick else sweeps.M + "Deep", workers=1, cover=sweeps.ACTS)["out"])))
    progs = [dict(json.loads(p), alg=a) for p in progs for a in ALGS if json.loads(p)["kind"] == "bound"]
    if c.quick:
        progs = progs[c.seed % 7::7]
    pf = c.path("programs.ndjson")
    open(pf, "w").write("".join(json.dumps(p) + "\n" for p in progs))
    k = 4 if c.quick else 32
    step = (len(progs) + k - 1) // k
    for i in range(k):
        jobs[c.path("replay%d.ndjson" % i)] = (exes[0], ["replay", pf, i * step, (i + 1) * step, "all"])
    def add(mode, a, n, rep):
        for s, x in zip(sites, exes):
            jobs[c.path("%s-%s%d-%d.ndjson" % (mode, a, rep, s))] = (x, [mode, c.seed * 7919 + 1013 * len(jobs), max(1, n * share[s] // 16), a, "all"])
    for rep in range(1 if c.quick else 8):
        for a in ALGS:
            add("random", a, 16 if c.quick else 128, rep)
            add("parallel", a, 10 if c.quick else 64, rep)
            if a != "mnoise":
                add("split", a, 6 if c.quick else 48, rep)
    pl = sorted(set(exported(c.design("sweep/MCTdvp", "sweep/MCTdvp" if c.quick else "sweep/MCTdvpDeep", workers=1)["out"])))
    tf = c.path("steps.ndjson")
    open(tf, "w").write("\n".join(pl) + "\n")
    prog = sum('"prog"' in x for x in pl)
    k = 4 if c.quick else 24
    for i in range(k):
        a = prog * i // k
        evo[c.path("evolve-replay%d.ndjson" % i)] = (tdvp, ["replay", tf, a, a + max(1, prog // k // (6 if c.quick else 1))])
    for i in range(4 if c.quick else 48):
        evo[c.path("evolve%d.ndjson" % i)] = (tdvp, ["random", tf, c.seed * 7919 + 31 * i, 30 if c.quick else 150])
    rec = c.record_all({**jobs, **evo}, timeout=800)
    c.sample(progs[-1])
    c.notes["replayed_spec_histories"] = len(progs)
    c.validate(T, T, list(jobs), rerun=rec)
    c.validate("sweep/TraceTdvp", "sweep/TraceTdvp", list(evo), rerun=rec)
    msgs = [t + ".mpi" for t in list(jobs) + list(evo)]
    c.validate(D, D, msgs, rerun=lambda t: rec(t[:-4]))
    def selftest(spec, ts, rx, repl):
        t = next(t for t in reversed(ts) if any(re.search(rx, x) for x in open(t).read().splitlines()[:4000]))
        c.binding_selftest(spec, spec, t, corrupt_first(rx, repl))
    selftest(T, list(jobs), r'("e":"same","clear":true,"en":\[-?\d)', r'\g<1>7')
    selftest(D, msgs, r'("e":"send","r":0,"p":\d,"k":"n","v":)\d+', r'\g<1>77777')
    c.assumptions += ["1-4 workers beside the master (0 for the fallback to one rank), in one process; random interleavings, sends buffered or waiting for their receiver",
                      "the design model has up to 3 workers, 3 tasks and 2 repeated orders; every interleaving",
                      "every rank is given the Hamiltonian"] + sweeps.ASSUME
