import json
from vlib import exported, corrupt_first
M = "mpogen/IFsmDesign"
T = "mpogen/TracePeriodicChain"
def body(c):
    exe = c.build("c06", "c06.cc")
    progs = []
    for k in ["1", "2", "3"] + ([] if c.quick else ["2Deep"]):
        progs += exported(c.design(M, M + k, workers=1 if k != "2Deep" else 8, cover=["AddPath"])["out"])
    progs = sorted(set(progs))
    c.notes["replayed_spec_transitions"] = len(progs)
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.sample(json.loads(max(progs, key=len)))
    k = 4 if c.quick else 16
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): ["replay", pf, i * step, (i + 1) * step] for i in range(k)}
    for i in range(4 if c.quick else 24):
        jobs[c.path("rand%d.ndjson" % i)] = ["random", c.seed * 911 + i, 120 if c.quick else 600, 1 + i % 5]
    def rec(t):
        c.record(exe, jobs[t], t)
    for t in jobs:
        rec(t)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("e":"add".*"ops":\[\[\[)(\d)', lambda m: m.group(1) + "1" + m.group(2)), maxlines=800)
    c.assumptions += ["terms are distinct, cover at least two sites and begin and end with an operator other than the identity",
                      "operator strings are compared at random points of Z_30011",
                      "windows of up to 4 unit cells"]
