import json, random
from vlib import exported, corrupt_first, HARN
T, M = "models/TraceChainGen", "models/MCChainGen"
def body(c):
    exes = c.build_many([dict(name="c23_%d" % p, src="c23.cc", inc=[HARN + "/stub"], libs=["-lpthread"], defs=("-DNDEBUG", "-DPART=%d" % p)) for p in range(3)])
    c.design("models/MCBondSort", "models/MCBondSort", cover=["Sort1", "Sort2"])
    c.design("models/MCBondSort", "models/MCBondSort31", cover=["Sort1", "Sort2"])
    progs = list(dict.fromkeys(exported(c.design(M, M, workers=1, cover=["One1", "Two", "Str", "Tail2"])["out"])))
    if not c.quick:
        progs += exported(c.design(M, M + "Deep", workers=1, cover=["One1", "Two", "Str", "Tail2"])["out"])
    one = [p for p in progs if len(json.loads(p)) == 1]
    two = [p for p in progs if len(json.loads(p)) == 2]
    more = [p for p in progs if len(json.loads(p)) > 2]
    r = random.Random(c.seed)
    progs = one + (r.sample(two, min(len(two), 4000)) if c.quick else two) + r.sample(more, min(len(more), 20000))
    c.notes["replayed_spec_transitions"] = len(progs)
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    k = 4 if c.quick else 24
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): (exes[0], ["replay", pf, i * step, (i + 1) * step - 1]) for i in range(k)}
    for i in range(9 if c.quick else 32):
        jobs[c.path("rand%d.ndjson" % i)] = (exes[i % 3], ["random", c.seed * 4001 + i, 500 if c.quick else 4000])
    rec = c.record_all(jobs)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("m":\[\[\d+,\d+,)(-?\d+)', lambda m: m.group(1) + str(int(m.group(2)) + 1)))
    c.sample(json.loads(progs[-1]))
    c.assumptions += ["chains of 1-5 sites, local dimensions 1-4, total dimension at most 81; operators with small integer elements, coefficients multiples of 1/8",
                      "terms are neutral as a whole, their operators do not vanish, each site is named once per term",
                      "TensorToolkit replaced by the stand-in in harness/stub"]
