import json
from vlib import exported, corrupt_first, HARN
T, M = "mps/TraceChainStore", "mps/MCChainStore"
ACTS = ["MSet", "MFree", "MDump", "MLoad", "MLoadFails", "MDumpTen", "MLoadTen", "MRemove"]
def body(c):
    exe = c.build("c09", "c09.cc", inc=[HARN + "/stub"], libs=["-lpthread"])
    progs = []
    for cfg in [M] + ([] if c.quick else [M + "Deep"]):
        progs += exported(c.design(M, cfg, workers=1, cover=ACTS)["out"])
    progs = sorted(set(progs))
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.notes["replayed_spec_transitions"] = len(progs)
    c.sample(json.loads(max(progs, key=len)))
    k = 8 if c.quick else 24
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): (exe, ["replay", pf, i * step, (i + 1) * step]) for i in range(k)}
    for i in range(8 if c.quick else 32):
        jobs[c.path("rand%d.ndjson" % i)] = (exe, ["random", c.seed * 7919 + i, 150 if c.quick else 1000])
    rec = c.record_all(jobs)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("obs":\{"mem":\[)\d+', r'\g<1>77777'))
    c.assumptions += ["chains of 1-5 slots, two directories, files inspected after every call",
                      "TensorToolkit (and with it the byte format of one tensor) replaced by the stand-in in harness/stub"]
