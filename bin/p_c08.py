import json
from vlib import exported, corrupt_first, HARN
T, M = "mps/TraceMpsCanon", "mps/MCMpsCanon"
ACTS = ["MCentralize", "MLeft", "MRight", "MLeftOne", "MRightOne", "MReplace", "MReload", "MCopied", "MReverse", "MEntropy", "MTruncate", "MAdded"]
def body(c):
    exe = c.build("c08", "c08.cc", inc=[HARN + "/stub"], libs=["-lpthread"])
    progs = []
    for cfg in [M] + ([] if c.quick else [M + "Deep"]):
        progs += exported(c.design(M, cfg, workers=1, cover=ACTS)["out"])
    progs = sorted(set(progs))
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.notes["replayed_spec_transitions"] = len(progs)
    c.sample(json.loads(max(progs, key=len)))
    k = 8 if c.quick else 24
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): (exe, ["replay", pf, i * step, (i + 1) * step]) for i in range(k)}
    for i in range(8 if c.quick else 32):
        jobs[c.path("rand%d.ndjson" % i)] = (exe, ["random", c.seed * 7919 + i, 300 if c.quick else 2000])
    rec = c.record_all(jobs)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("o":"centralize".*"f":)"L"', r'\g<1>"R"'))
    c.assumptions += ["chains of 2-6 sites, local dimension 2-3, bonds up to 6, real and complex, U1, U1xU1 and no symmetry",
                      "TensorToolkit replaced by the stand-in in harness/stub"]
