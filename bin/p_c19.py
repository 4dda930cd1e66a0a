import json
from vlib import exported, corrupt_first, HARN
T, M = "sweep/TraceTdvp", "sweep/MCTdvp"
ACTS = ["Start", "Measure", "MLoad", "MForward", "MBackward", "MDump", "MClose"]
def body(c):
    exe = c.build("c19", "c19.cc", inc=[HARN + "/stub"], libs=["-lpthread", "-ldl"])
    lines = sorted(set(exported(c.design(M, M if c.quick else M + "Deep", workers=1, cover=ACTS)["out"])))
    lines += [x for x in sorted(set(exported(c.design(M, M + "Long", workers=1, cover=ACTS)["out"]))) if '"plan"' in x and x not in lines]   # the plans of longer chains
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(lines) + "\n")
    progs = [x for x in lines if '"prog"' in x]
    c.notes["replayed_spec_histories"] = len(progs)
    c.sample(json.loads(progs[-1]))
    k = 8 if c.quick else 32
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): (exe, ["replay", pf, i * step, (i + 1) * step]) for i in range(k)}
    for i in range(8 if c.quick else 64):
        jobs[c.path("rand%d.ndjson" % i)] = (exe, ["random", pf, c.seed * 7919 + i, 150 if c.quick else 500])
    rec = c.record_all(jobs, timeout=800)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("off":)\d+', r'\g<1>9999'))
    c.assumptions += ["3-5 sites, some 6-8, (7 in every length of a history in depth) of spins 1/2 and 1 and t-J electrons, random Hermitian chains, operators with and without strings and charge, up to 3 steps and 3 calls",
                      "the chain on disk is right-canonical behind the operator's site; the operator does not annihilate the state; 3 or more sites",
                      "closeness to the exact evolution is required for nearest-neighbour couplings without truncation, error at most 4 k (tau |H|)^3 after k steps with tau |H| < 0.2",
                      "TensorToolkit replaced by the stand-in in harness/stub (bosonic)"]
