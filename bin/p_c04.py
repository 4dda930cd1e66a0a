import json
from vlib import exported, corrupt_first
T = "container/TraceContainer"
ACTS = ["MNew", "MCopyCtor", "MCopyAssign", "MMoveCtor", "MMoveAssign", "MWrite", "MAlloc", "MDealloc", "MClear", "MDestroy", "MTake", "MPut", "MFree"]
def body(c):
    exe = c.build("c04", "c04.cc")
    progs = []
    for cfg in ["container/MCContainer"] + ([] if c.quick else ["container/MCContainerDeep"]):
        r = c.design("container/MCContainer", cfg, workers=1, cover=ACTS)
        progs += exported(r["out"])
    progs = sorted(set(progs))
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.notes["replayed_spec_transitions"] = len(progs)
    c.sample(json.loads(max(progs, key=len)))
    k = 4 if c.quick else 16
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): ["replay", pf, i * step, (i + 1) * step] for i in range(k)}
    for i in range(4 if c.quick else 16):
        jobs[c.path("rand%d.ndjson" % i)] = ["random", c.seed * 104729 + i, 150 if c.quick else 1500, 1 + 2 * (i % 4)]
    def rec(t):
        c.record(exe, jobs[t], t)
    for t in jobs:
        rec(t)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("e":"write".*"live":\[)(\d+)', lambda m: m.group(1) + "900" + m.group(2)), maxlines=2000)
    c.assumptions += ["elements with value semantics whose copy constructor does not throw"]
