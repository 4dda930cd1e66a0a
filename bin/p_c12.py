import json
from vlib import exported, corrupt_first, HARN
T, M = "mpo/TraceMpoChain", "mpo/MCMpoChain"
ACTS = ["MCentralize", "MLeft", "MRight", "MOne", "MWrite", "MScale", "MAllScale", "MNormalize", "MTrace", "MAdd", "MProduct", "MFit", "MSquare", "MTruncate",
        "MIdentity", "MCopied", "MConverted", "MDump", "MLoad", "MReload"]
def body(c):
    exe = c.build("c12", "c12.cc", inc=[HARN + "/stub"], libs=["-lpthread"])
    progs = []
    for cfg in [M, M + "2"] + ([] if c.quick else [M + "Deep"]):
        progs += exported(c.design(M, cfg, workers=1, cover=ACTS)["out"])
    progs = sorted(set(progs))
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.notes["replayed_spec_transitions"] = len(progs)
    c.sample(json.loads(max(progs, key=len)))
    k = 8 if c.quick else 32
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): (exe, ["replay", pf, i * step, (i + 1) * step]) for i in range(k)}
    for i in range(8 if c.quick else 48):
        jobs[c.path("rand%d.ndjson" % i)] = (exe, ["random", c.seed * 7919 + i, 1500 if c.quick else 12000])
    rec = c.record_all(jobs)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("e":"op".*?"op":\[\[\d+,)(-?\d)', r'\g<1>7\g<2>'))
    c.assumptions += ["chains of 2-4 sites, for sums, products and normal forms up to 6, local dimension 2-3, integer elements so that every represented operator is exactly known; every element compared",
                      "a variational product is required to be the target itself when its starting chain spans the target's bonds and nothing is truncated, and its orthogonal projection otherwise",
                      "TensorToolkit replaced by the stand-in in harness/stub (bosonic)"]
