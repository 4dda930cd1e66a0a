---- MODULE TraceFiniteChain ----
EXTENDS FiniteChain, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TInit == Init /\ l = 1
TReset == IsEvent("reset") /\ Chain(E.n, E.cv, E.ov, E.ids)
TAdd == IsEvent("add") /\ Add(E.h, E.ops)
TGen == IsEvent("gen") /\ Gen(E.comp, E.ms) /\ (E.uniform > 0 /\ E.comp => Uniform(E.uniform, E.ms))
TNext == TReset \/ TAdd \/ TGen
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
====
