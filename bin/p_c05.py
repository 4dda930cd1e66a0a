import json, os
def body(c):
    exe = c.build("c05", "c05.cc", san=False)
    c.design("params/MCParamParser", "params/MCParamParser", cover=["Open", "Call"])
    n = 4
    nseg = 700 if c.quick else 6000
    def rec(i):
        d = c.path("t%d" % i)
        os.makedirs(d, exist_ok=True)
        t = c.path("trace%d.ndjson" % i)
        c.record(exe, [c.seed * 1000 + i, nseg, d], t)
        return t
    ts = [rec(i) for i in range(n)]
    c.validate("params/TraceParamParser", "params/TraceParamParser", ts, rerun=lambda t: rec(ts.index(t)))
    def corrupt(lines):
        for k, x in enumerate(lines):
            if '"kind":"true"' in x:
                return k, lines[:k] + [x.replace('"kind":"true"', '"kind":"false"')] + lines[k + 1:]
        return 0, None
    c.binding_selftest("params/TraceParamParser", "params/TraceParamParser", ts[0], corrupt)
    kinds = {}
    for t in ts:
        for x in open(t):
            j = json.loads(x)
            if j["e"] == "call":
                k = "%s/%s/%s" % (j["form"], j["ty"], j["out"]["kind"])
                kinds[k] = kinds.get(k, 0) + 1
                if len(c.samples) < 5 and j["out"]["kind"] == "exit":
                    c.sample(j)
    c.notes["outcomes_by_form_type"] = kinds
    c.assumptions += ["the expected value of a JSON literal is computed with strtod and 128-bit integers by the driver",
                      "malformed JSON text may end in an exit or an exception; it must not deliver a parser"]
