import json, random
from vlib import exported, corrupt_first
M = "mpogen/MCSparseMatrix"
T = "mpogen/TraceSparseMatrix"
ACTS = ["MNew", "MSet", "MRemoveRow", "MRemoveCol", "MSwapRows", "MSwapCols", "MTransRows", "MTransCols", "MSortRows", "MSortCols"]
def body(c):
    exe, coef = c.build_many([dict(name="c03", src="c03.cc"), dict(name="c03coef", src="c03.cc", flags=["-DCOEF"])])
    progs = []
    for cfg in [M, M + "T"] + ([] if c.quick else [M + "Deep"]):
        progs += exported(c.design(M, cfg, workers=1, cover=ACTS)["out"])
    progs = sorted(set(progs))
    c.notes["spec_transitions_exported"] = len(progs)
    if c.quick:
        progs = random.Random(c.seed).sample(progs, min(len(progs), 12000))
    c.notes["replayed_spec_transitions"] = len(progs)
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.sample(json.loads(max(progs, key=len)))
    k = 4 if c.quick else 16
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): ["replay", pf, i * step, (i + 1) * step] for i in range(k)}
    for i in range(2 if c.quick else 12):
        jobs[c.path("comp%d.ndjson" % i)] = ["compress", c.seed * 31 + i, 150 if c.quick else 800, 2 + i % 6]
    for i in range(4 if c.quick else 16):
        jobs[c.path("rand%d.ndjson" % i)] = ["random", c.seed * 4001 + i, 300 if c.quick else 2500, 2 + 2 * (i % 4)]
    for i in range(2 if c.quick else 8):
        jobs[c.path("coef%d.ndjson" % i)] = ["random", c.seed * 6007 + i, 200 if c.quick else 2000, 2 + 2 * i % 5]
    def rec(t):
        c.record(coef if "/coef" in t else exe, jobs[t], t)
    for t in jobs:
        rec(t)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("e":"set".*"el":)(\d)', lambda m: m.group(1) + str(int(m.group(2)) % 6 + 1)), maxlines=2000)
    cf = [t for t in ts if "comp" in t][0]
    c.binding_selftest(T, T, cf, corrupt_first(r'("l1":\{.*?"el":\[\[\d,\d,\[\[)(\d),', lambda m: m.group(1) + "%d," % (int(m.group(2)) + 1)), maxlines=400)
    c.assumptions += ["matrix pairs for compression are those the finite-chain generator produces (coefficients on the first operator of a term)",
                      "products are compared at random points of Z_30011",
                      "setting a cell to the empty element is not exercised (the library ignores it)"]
