--------------------------------- MODULE TraceMpi ---------------------------------
(* Recorded messages between the ranks against MpiTasks.  Tags and the order in which tasks are handed out are free.  A sweep    *)
(* goes right, then left; the noise of an expansion is the one listed for its sweep, the last one for later sweeps.             *)
EXTENDS MpiTasks, Json, IOUtils
VARIABLES l, noises, turn      \* turn: sweeps begun, direction
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TReset == IsEvent("reset") /\ Fresh(E.alg, E.w, E.sync) /\ noises' = E.noises /\ turn' = <<0, "left">>
Turned(o) == IF o \in {"right", "growl"} THEN <<IF turn[2] = "left" THEN turn[1] + 1 ELSE turn[1], "right">> ELSE IF o \in {"left", "growr"} THEN <<turn[1], "left">> ELSE turn
Listed == noises[Min(turn[1], Len(noises))]
Keep == UNCHANGED <<noises, turn>>
TBcast == IsEvent("bcast") /\ (IF E.r = 0 /\ E.k = "o" THEN MOrder(E.o) /\ turn' = Turned(E.o) ELSE UNCHANGED turn /\ (last \in {"right", "left"} /\ E.k = "n" => E.v = Listed) /\ E.r = 0 /\ MItem(E.k, IF last = "growl" /\ ~Blocks THEN E.z ELSE E.v)) /\ UNCHANGED noises
TBcrecv == Keep /\ IsEvent("bcrecv") /\ E.r \in Workers /\ WBcast(E.r, E.k)
TSend == Keep /\ IsEvent("send") /\ IF E.r = 0 THEN MSend(E.p, E.k, E.v) ELSE E.p = 0 /\ (E.k = "n" => E.v = IF s[E.r].ph = "hello" THEN E.r ELSE IF s[E.r].ph = "opn" THEN Head(s[E.r].todo) ELSE -1) /\ WSend(E.r, E.k)
TRecv == Keep /\ IsEvent("recv") /\ IF E.r = 0 THEN MRecv(E.p, E.k) /\ (E.k = "n" => Head(up[E.p]).v = E.v) ELSE E.p = 0 /\ WRecv(E.r, E.k) /\ (E.k = "n" => Head(down[E.r]).v = E.v)
TBarrier == Keep /\ IsEvent("barrier") /\ UNCHANGED mvars
TEnd == Keep /\ IsEvent("end") /\ E.why = "" /\ E.left = 0 /\ (IF w = 0 THEN last = "" ELSE Over) /\ UNCHANGED mvars
TInit == l = 1 /\ noises = <<>> /\ turn = <<0, "left">> /\ alg = "" /\ w = 0 /\ sync = FALSE /\ last = "" /\ m = Master0 /\ s = <<>> /\ bc = <<>> /\ up = <<>> /\ down = <<>> /\ res = {}
TNext == TReset \/ TBcast \/ TBcrecv \/ TSend \/ TRecv \/ TBarrier \/ TEnd
TSpec == TInit /\ [][TNext]_<<mvars, l, noises, turn>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
================================================================================
