import json, random
from vlib import exported, corrupt_first, HARN
D, M, T = "runparams/", "runparams/MCRunParams", "runparams/TraceRunParams"
def body(c):
    exe = c.build("c07", "c07.cc", san=False, inc=[HARN + "/stub"], libs=["-lpthread"], flags=["-fsanitize=undefined", "-fno-sanitize=bool"])
    progs = exported(c.design(M, M, workers=1, cover=["MLanczos", "MPlain", "MNoisy", "MEvolve", "MCopy", "MAssign", "MConvert", "MSetTrunc", "MSetError"])["out"])
    # all one-step programs, and a sample of the longer ones (all of them in the thorough run)
    progs = list(dict.fromkeys(progs))
    short = [p for p in progs if len(json.loads(p)) <= 2]
    long_ = [p for p in progs if len(json.loads(p)) > 2]
    progs = short + random.Random(c.seed).sample(long_, min(len(long_), 4000 if c.quick else 60000))
    pf = c.path("programs.ndjson")
    open(pf, "w").write("\n".join(progs) + "\n")
    c.notes["replayed_spec_transitions"] = len(progs)
    k = 4 if c.quick else 16
    step = (len(progs) + k - 1) // k
    jobs = {c.path("replay%d.ndjson" % i): ["replay", pf, i * step, (i + 1) * step - 1] for i in range(k)}
    for i in range(4 if c.quick else 16):
        jobs[c.path("rand%d.ndjson" % i)] = ["random", c.seed * 7919 + i, 400 if c.quick else 3000]
    def rec(t):
        c.record(exe, jobs[t], t)
    for t in jobs:
        rec(t)
    ts = list(jobs)
    c.validate(T, T, ts, rerun=rec)
    c.binding_selftest(T, T, ts[-1], corrupt_first(r'"noise_valid":(true|false)', lambda m: '"noise_valid":' + ("false" if m.group(1) == "true" else "true")))
    c.sample(json.loads(progs[-1]))
    c.assumptions += ["sysinfo(2) is answered by the harness with arbitrary consistent figures or a failure",
                      "only the Linux, non-GPU branch of the memory monitor is compiled"]
