import json
from vlib import exported, corrupt_first, HARN
T, M = "solver/TraceLanczos", "solver/MCLanczos"
ACTS = ["Begin", "Exhausted", "Limit", "Extend", "Multiply", "Converged", "Continue", "Combine", "Release", "Return"]
def body(c):
    exe = c.build("c21", "c21.cc", inc=[HARN + "/stub"], libs=["-lpthread", "-ldl"])
    progs = exported(c.design(M, M if c.quick else M + "Deep", workers=1, cover=ACTS)["out"])
    progs = sorted(set(progs))
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.notes["replayed_spec_behaviours"] = len(progs)
    c.sample(json.loads(progs[len(progs) // 2]))
    k = 8
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): (exe, ["replay", pf, i * step, (i + 1) * step, 2 if c.quick else 12]) for i in range(k)}
    for i in range(8 if c.quick else 64):
        jobs[c.path("rand%d.ndjson" % i)] = (exe, ["random", c.seed * 7919 + i, 600 if c.quick else 3000])
    rec = c.record_all(jobs, timeout=800)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'("e":"done","iters":)(\d+)', r'\g<1>9\g<2>'))
    c.assumptions += ["sectors of 1-16 amplitudes, spectra of radius 0.3-9, Krylov sequences whose couplings exceed 1e-3 until they end, time steps up to 0.52",
                      "rounding may let the recursion leave an exhausted space: the energy is then only required to lie between the exact minimum and that of the start's space",
                      "memory misuse and leaks by the sanitizers, tensors by the stand-in's live counters; TensorToolkit replaced by the stand-in in harness/stub (bosonic)"]
