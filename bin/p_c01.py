import json
from vlib import exported, corrupt_first
T = "mpogen/TraceFiniteChain"
def body(c):
    exe = c.build("c01", "c01.cc")
    cfgs = ["mpogen/FsmDesign"] + ([] if c.quick else ["mpogen/FsmDesignDeep"])
    progs = []
    for cfg in cfgs:
        r = c.design("mpogen/FsmDesign", cfg, workers=1, cover=["AddPath"])
        progs += exported(r["out"])
    assert progs, "no exported programs"
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.notes["replayed_spec_transitions"] = len(progs)
    c.sample(json.loads(progs[-1]))
    jobs = {}
    k = 4 if c.quick else 16
    step = (len(progs) + k - 1) // k
    for i in range(k):
        jobs[c.path("replay%d.ndjson" % i)] = ["replay", pf, i * step, (i + 1) * step]
    for i in range(4 if c.quick else 24):
        jobs[c.path("rand%d.ndjson" % i)] = ["random", c.seed * 7919 + i, 150 if c.quick else 500, 1 + (2 * i) % 9]
    def rec(t):
        c.record(exe, jobs[t], t)
    for t in jobs:
        rec(t)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("e":"add".*?)\[\[(\d),', lambda m: m.group(1) + "[[%d," % (int(m.group(2)) + 1)), maxlines=3000)
    c.assumptions += ["operator strings are compared at random points of Z_30011: a wrong chain escapes one comparison with probability < 1e-3",
                      "coefficients sit on the first operator of a term, as the public generator attaches them"]
