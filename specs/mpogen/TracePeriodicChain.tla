-------------------------- MODULE TracePeriodicChain -------------------------
EXTENDS PeriodicChain, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TReset == IsEvent("reset") /\ Cell(E.u, E.cv, E.ov, E.ids) /\ E.fsmsize = E.u /\ E.celllen = E.u
TAdd == IsEvent("add") /\ Add(E.h, E.ops)
TRaw == IsEvent("raw") /\ GenRaw(E.ms, E.w)
TComp == IsEvent("comp") /\ GenComp(E.ms, E.w)
TInit == Init /\ l = 1
TNext == TReset \/ TAdd \/ TRaw \/ TComp
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
==============================================================================
