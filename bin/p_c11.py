import json
from vlib import exported, corrupt_first, HARN
T, M = "measure/TraceMeasure", "measure/MCMeasure"
ACTS = ["Move", "TakeOne", "First", "Second", "Advance", "Finish"]
def body(c):
    exe = c.build("c11", "c11.cc", inc=[HARN + "/stub"], libs=["-lpthread"])
    progs = []
    for cfg in [M] + ([] if c.quick else [M + "Deep"]):
        progs += exported(c.design(M, cfg, workers=1, cover=ACTS)["out"])
    progs = sorted(set(progs))
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.notes["replayed_spec_behaviours"] = len(progs)
    c.sample(json.loads(max(progs, key=len)))
    k = 4 if c.quick else 24
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): (exe, ["replay", pf, i * step, (i + 1) * step]) for i in range(k)}
    for i in range(8 if c.quick else 32):
        jobs[c.path("rand%d.ndjson" % i)] = (exe, ["random", c.seed * 7919 + i, 600 if c.quick else 4000])
    rec = c.record_all(jobs)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("res":\[\[\{"sites":\[[\d,]*\],"v":\[)(\d)', r'\g<1>7\g<2>'))
    c.assumptions += ["chains of 2-7 sites, local dimension 2-3, states and operators with integer elements so that every expectation value is an exact integer",
                      "entropies of order 2 and 3 of any integer state, of order 1 of states with rational Schmidt weights",
                      "TensorToolkit replaced by the stand-in in harness/stub (bosonic; fermion signs enter as explicit string operators)"]
