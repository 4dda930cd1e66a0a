---- MODULE TraceParamParser ----
EXTENDS ParamParser, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TInit == Init /\ l = 1
TReset == IsEvent("reset") /\ status' = "fresh" /\ doc' = <<>> /\ last' = [kind |-> "none"]
TOpen == /\ IsEvent("open") /\ Open(E.file, E.doc)
         /\ DOMAIN E.doc = {E.keys[i] : i \in 1..Len(E.keys)}
         /\ last'.out = E.out
         /\ E.out = "exit" /\ E.file # "malformed" => E.code = 1 /\ E.diag
TCall == /\ IsEvent("call") /\ Call(E.form, E.ty, E.key, E.def)
         /\ E.out = last'
TNext == TReset \/ TOpen \/ TCall
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
====
