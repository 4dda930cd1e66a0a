---------------------------- MODULE TraceRunParams ---------------------------
EXTENDS RunParams, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
TDef == [error |-> "0x1.ad7f29abcaf48p-24", max_iter |-> "200", mps |-> "mps", temp |-> ".temp", initial |-> "initial_mps",
         measure |-> ".measure_temp", max_noise |-> "0x1p+0", increase |-> "0x1.051eb851eb852p+0",
         decrease |-> "0x1.e666666666666p-1", alpha |-> "0x1.3333333333333p-2"]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
(* what the object shows after the step *)
Seen(n) == LET r == objs'[n] IN DOMAIN E.got = DOMAIN r /\ \A f \in DOMAIN r : E.got[f] = r[f]
Others == \A i \in 1..Len(E.others) : LET n == E.others[i].n IN \A f \in DOMAIN objs[n] : E.others[i].got[f] = objs[n][f]
Obj == \/ IsEvent("lanczos") /\ MakeLanczos(E.n, E.o)
       \/ IsEvent("plain") /\ MakePlain(E.n, E.a, E.lz, E.o)
       \/ IsEvent("noisy") /\ MakeNoisy(E.n, E.a, E.lz, E.ns, E.o)
       \/ IsEvent("evolve") /\ MakeEvolve(E.n, E.a, E.ops, E.lz, E.o)
       \/ IsEvent("copy") /\ Copy(E.n, E.m)
       \/ IsEvent("assign") /\ Assign(E.n, E.m)
       \/ IsEvent("convert") /\ Convert(E.n, E.m)
       \/ IsEvent("settrunc") /\ SetTrunc(E.n, E.v)
       \/ IsEvent("seterror") /\ SetError(E.n, E.v)
(* the monitor: a query either fails (the operating system's query failed) with an error, or delivers the figures *)
Monitor == /\ IsEvent("mem") /\ UNCHANGED objs
           /\ E.device = 0                                        \* before and after
           /\ IF E.fails THEN E.out = "error"
              ELSE /\ E.out = "ok"
                   /\ IF E.how = "get" THEN E.exact /\ Figures(E.q, E.total, E.free, E.used)
                      ELSE /\ E.text /\ \E f \in {E.q.free, E.q.free + E.q.buffer} :
                                Near(E.total, E.q.total) /\ Near(E.free, f) /\ Near(E.used, E.q.total - f)
Reset == IsEvent("reset") /\ objs' = <<>>
TInit == objs = <<>> /\ l = 1
TNext == Reset \/ (Obj /\ Seen(E.n) /\ Others) \/ Monitor
TSpec == TInit /\ [][TNext]_<<objs, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
==============================================================================
