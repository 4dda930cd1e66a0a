import json
from vlib import exported, corrupt_first, HARN
T, M = "prep/TraceStatePrep", "prep/MCStatePrep"
ACTS = ["Product", "Add", "Start", "Cut"]
def body(c):
    exe = c.build("c10", "c10.cc", inc=[HARN + "/stub"], libs=["-lpthread"])
    progs = []
    for cfg in [M] + ([] if c.quick else [M + "Deep"]):
        progs += exported(c.design(M, cfg, workers=1 if c.quick else 8, cover=ACTS)["out"])
    progs = sorted(set(progs))
    if len(progs) > 8000: progs = progs[c.seed % 4::4]
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.notes["replayed_spec_transitions"] = len(progs)
    c.sample(json.loads(max(progs, key=len)))
    k = 4 if c.quick else 24
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): (exe, ["replay", pf, i * step, (i + 1) * step]) for i in range(k)}
    for i in range(8 if c.quick else 32):
        jobs[c.path("rand%d.ndjson" % i)] = (exe, ["random", c.seed * 7919 + i, 300 if c.quick else 3000])
    rec = c.record_all(jobs)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("o":"truncate".*?"lost":\[)(\d+)', r'\g<1>1\g<2>'))
    c.assumptions += ["chains of 2-7 sites, local dimension 2-3, exact Schmidt weights for states that split into rank-one blocks, fidelity bounds for the others",
                      "TensorToolkit replaced by the stand-in in harness/stub, including its truncation rule"]
