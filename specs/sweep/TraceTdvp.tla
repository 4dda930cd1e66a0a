-------------------------------- MODULE TraceTdvp -------------------------------
(* Recorded time evolutions against the schedule of MCTdvp: which tensor is written when, which blocks are used, and how the   *)
(* state on disk compares with the operations of the schedule carried out exactly.                                            *)
EXTENDS SweepStore, Json, IOUtils
VARIABLES l,
          call,     \* the call under way
          pos,      \* tensors of this step that went to disk (0: none)
          cnt       \* measurements of this call
tvars == <<svars, l, call, pos, cnt>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Tol == 20
Near(a, b) == a - b <= Tol /\ b - a <= Tol
Set(s) == {s[i] : i \in 1..Len(s)}
None0 == [steps |-> -1]
\* ---- the schedule: the i-th tensor written in a step, and the pair that was moved before it
Rights == n - 2
Per == 2 * n - 2                                    \* n - 2 going right, n - 2 going left, the first two
SiteAt(i) == IF i <= Rights THEN i - 1 ELSE IF i <= 2 * n - 4 THEN 2 * n - 2 - i ELSE i - (2 * n - 3)
PairAt(i) == IF i <= Rights THEN i - 1 ELSE IF i <= 2 * n - 4 THEN 2 * n - 3 - i ELSE 0
TReset == IsEvent("reset") /\ n' = E.n /\ kind' = "pair" /\ cur' = [b \in Names(E.n) |-> 1] /\ blk' = None(E.n) /\ held' = None(E.n)
          /\ disk' = [i \in 0..(E.n - 1) |-> TRUE] /\ mem' = {} /\ call' = None0 /\ pos' = 0 /\ cnt' = 0
TCall == /\ IsEvent("call") /\ call = None0 /\ (\E c \in Set(E.centres) : c <= E.site)
         /\ call' = E /\ pos' = 0 /\ cnt' = 0 /\ blk' = None(n) /\ held' = None(n) /\ mem' = {} /\ UNCHANGED <<n, kind, cur, disk>>
Holding(s) == {b \in Names(n) : s \in SitesOf(n, b)}
\* ---- files
TRead == IsEvent("read") /\ E.b \in Names(n) /\ E.ok /\ Fresh(E.b) /\ held' = [held EXCEPT ![E.b] = cur[E.b]] /\ UNCHANGED <<n, kind, cur, blk, disk, mem, call, pos, cnt>>
TWrote == IsEvent("wrote") /\ E.b \in Names(n) /\ E.ok /\ blk' = [blk EXCEPT ![E.b] = cur[E.b]] /\ held' = [held EXCEPT ![E.b] = cur[E.b]]
          /\ UNCHANGED <<n, kind, cur, disk, mem, call, pos, cnt>>
TRemove == IsEvent("remove") /\ E.b \in Names(n) /\ blk' = [blk EXCEPT ![E.b] = 0] /\ UNCHANGED <<n, kind, cur, held, disk, mem, call, pos, cnt>>
TMread == IsEvent("mread") /\ UNCHANGED <<svars, call, pos, cnt>>
TMremove == IsEvent("mremove") /\ cnt = 0 /\ UNCHANGED <<svars, call, pos, cnt>>
TIwrite == IsEvent("iwrite") /\ ~call.had /\ cnt = 0 /\ UNCHANGED <<svars, call, pos, cnt>>       \* the reference is written once
TMwrite == IsEvent("mwrite") /\ cnt = 0 /\ E.s \in 0..(n - 1) /\ Bump(Holding(E.s)) /\ UNCHANGED <<n, kind, blk, held, disk, mem, call, pos, cnt>>
\* ---- a position of the sweep
TSite == /\ IsEvent("site") /\ cnt > 0 /\ cnt <= call.steps /\ pos < Per /\ E.s = SiteAt(pos + 1) /\ E.clean
         /\ (pos + 1 < Per => \A b \in Pair(PairAt(pos + 1)) : Ready(b))
         /\ E.ortho /\ E.inspan
         /\ (pos + 1 < Per => /\ E.d >= 1 /\ E.d <= call.dmax /\ E.gone <= E.best + Tol
                              /\ (E.d < call.dmax => E.gone <= call.terr + Tol)
                              /\ (E.d > call.dmin /\ E.d > 1 => E.fewer >= call.terr - Tol))
         /\ Bump(Holding(E.s)) /\ pos' = pos + 1 /\ UNCHANGED <<n, kind, blk, held, disk, mem, call, cnt>>
\* ---- a measurement, and the state it is made of
TState == IsEvent("state") /\ call.steps >= 0 /\ E.whole /\ (IF cnt = 0 THEN pos = 0 ELSE pos = Per) /\ pos' = 0 /\ cnt' = cnt + 1 /\ cnt <= call.steps
          /\ UNCHANGED <<svars, call>>
TFacts == /\ IsEvent("facts") /\ E.clean /\ E.off <= Tol /\ E.charge
          /\ (IF cnt = 1 THEN 0 ELSE 1) \in Set(E.centres)
          /\ ({R(k) : k \in 0..(n - 2)} \cup {L(0)}) \subseteq Set(E.good)
          /\ E.norm <= 1000000 + Tol
          /\ (E.full => Near(E.norm, 1000000) /\ Near(E.en, E.en0))
          /\ (E.smooth => E.drift <= E.allow + Tol)
          /\ UNCHANGED <<svars, call, pos, cnt>>
TDone == /\ IsEvent("done") /\ E.out = "ok" /\ E.empty /\ E.shape /\ E.kept /\ cnt = call.steps + 1 /\ Len(E.pts) = call.steps + 1
         /\ (\A i \in 1..Len(E.pts) : E.pts[i].val /\ E.pts[i].lab /\ E.pts[i].file)
         /\ call' = None0 /\ UNCHANGED <<svars, pos, cnt>>
TInit == l = 1 /\ n = 0 /\ kind = "pair" /\ cur = <<>> /\ blk = <<>> /\ held = <<>> /\ disk = <<>> /\ mem = {} /\ call = None0 /\ pos = 0 /\ cnt = 0
TNext == TReset \/ TCall \/ TRead \/ TWrote \/ TRemove \/ TMread \/ TMremove \/ TIwrite \/ TMwrite \/ TSite \/ TState \/ TFacts \/ TDone
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
================================================================================
