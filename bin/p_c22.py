import json
from vlib import corrupt_first, HARN
T = "models/TraceModels"
def body(c):
    exes = c.build_many([dict(name="c22_%d" % p, src="c22.cc", inc=[HARN + "/stub"], libs=["-lpthread"], defs=("-DNDEBUG", "-DPART=%d" % p)) for p in range(5)])
    c.design("models/MCFermionSites", "models/MCFermionSites", cover=["MHeis", "MHop", "MU"])
    if not c.quick:
        c.design("models/MCFermionSites", "models/MCFermionSitesDeep", cover=["MHeis", "MHop", "MU"])
    jobs = {}
    for p, e in enumerate(exes):
        for i in range(2 if c.quick else 8):
            jobs[c.path("t%d_%d.ndjson" % (p, i))] = (e, [c.seed * 101 + i, 150 if c.quick else 1200])
    rec = c.record_all(jobs)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("name":"bdna","m":\[\[\d,\d,)2', r'\g<1>-2'))
    names = {}
    for t in ts:
        for x in open(t):
            j = json.loads(x)
            if j["e"] == "ops":
                names[j["how"]] = names.get(j["how"], 0) + 1
            elif j["e"] in ("gen", "heisenberg", "hopping", "onsite"):
                names[j["e"]] = names.get(j["e"], 0) + 1
                c.sample({k: j[k] for k in j if k != "m"})
    c.notes["events"] = names
    c.assumptions += ["chains of 2-6 (spin), 2-4 (t-J), 2-3 (Hubbard) sites; couplings are multiples of 1/2",
                      "TensorToolkit replaced by the stand-in in harness/stub; quantum-number types U1, U1xU1 and trivial"]
