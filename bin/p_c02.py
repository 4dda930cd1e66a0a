import json, random
from vlib import exported, corrupt_first
M = "mpogen/MCSymbolicAlgebra"
T = "mpogen/TraceSymbolicAlgebra"
CACTS = ["MCNew", "MCCopy", "MCMove", "MCAdd", "MCAddTo"]
OACTS = ["MCNew", "MOLabels", "MOTerm", "MOCopy", "MOAdd", "MOAddTo", "MOSplit"]
def body(c):
    exe = c.build("c02", "c02.cc", san=True)
    pc = exported(c.design(M, M + "C", workers=1, cover=CACTS)["out"])
    po = exported(c.design(M, M + "O", workers=1, cover=OACTS)["out"])
    if not c.quick:
        c.design(M, M, cover=CACTS + OACTS)
    if c.quick:
        po = random.Random(c.seed).sample(po, 6000)
    progs = pc + po
    c.notes["replayed_spec_transitions"] = len(progs)
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.sample(json.loads(progs[-1]))
    k = 4 if c.quick else 24
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): ["replay", pf, i * step, (i + 1) * step] for i in range(k)}
    for i in range(4 if c.quick else 16):
        jobs[c.path("rand%d.ndjson" % i)] = ["random", c.seed * 6007 + i, 500 if c.quick else 3000, [2, 4, 9, 26][i % 4]]
    def rec(t):
        c.record(exe, jobs[t], t)
    for t in jobs:
        rec(t)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("e":"ceq".*"eq":)(true|false)', lambda m: m.group(1) + ("false" if m.group(2) == "true" else "true")), maxlines=2000)
    c.assumptions += ["coefficient labels up to 26 where printing is compared (single letters)",
                      "operators are not built with the empty coefficient"]
