------------------------------- MODULE TraceSweep -------------------------------
(* Recorded optimisations against SweepStore: every read, write and removal of a file and every change of the represented     *)
(* state, with exact facts about the chain at that moment.  The file of a block is current iff blk = cur, a copy in memory    *)
(* iff held = cur.                                                                                                            *)
EXTENDS SweepStore, NoiseSchedule, Json, IOUtils, TLC
VARIABLES l, judge, exact,
          call,     \* the call under way
          lb,       \* first site of the sweep: length of the first left block that was read (-1: none yet)
          cnt,      \* how often each block was read
          sig       \* stop requests of this run: lo..hi sweeps may be made (lo = -1: no request), at most e more steps (-1: no emergency), closed sweeps; last noise
tvars == <<svars, l, judge, exact, call, lb, cnt, sig>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Tol == 20
Near(a, b) == a - b <= Tol /\ b - a <= Tol
Set(s) == {s[i] : i \in 1..Len(s)}
Late == IF call.alg = "" THEN FALSE ELSE call.late            \* files are written in the background, behind the next update
Unseen == IF call.alg = "" THEN FALSE ELSE call.plain         \* only the start and the end of the run were observed
Blocks == judge \in {"C13", "C15", "C16", "C18", "all"} /\ ~Late     \* blocks are current whenever they are used
Values == judge \in {"C14", "C16", "C18", "all"}             \* energies, bonds, charge
Reuse == judge \in {"C15", "all"}                            \* what the end leaves for the next run, and what comparisons say
\* ---- the noise of a sweep (TRUE: none zero)
Noisy(k) == LET z == call.noises IN Len(z) > 0 /\ (IF k <= Len(z) THEN z[k] ELSE z[Len(z)])
AnyNoise == \E k \in 1..call.sweeps : Noisy(k)
NoSig == [lo |-> -1, hi |-> -1, e |-> -1, closed |-> 0, nz |-> None0]
\* right blocks of a run, outermost last
Inner == IF kind = "single" THEN n - 1 ELSE n - 2
SweepEnd == R(IF kind = "bound" THEN n - 2 - lb ELSE Inner)       \* read at the start of a sweep, written at its end
SweepNow == IF lb = -1 THEN 0 ELSE cnt[SweepEnd]
TReset == IsEvent("reset") /\ n' = E.n /\ kind' = "pair" /\ judge' = E.judge /\ exact' = E.exact /\ cur' = [b \in Names(E.n) |-> 1] /\ blk' = None(E.n)
          /\ held' = None(E.n) /\ disk' = [i \in 0..(E.n - 1) |-> TRUE] /\ mem' = {} /\ call' = [alg |-> ""] /\ lb' = -1 /\ cnt' = None(E.n) /\ sig' = NoSig
\* a call starts from what the previous one left; the blocks that are no longer those of the state are known from the observation
TCall == /\ IsEvent("call") /\ call.alg = "" /\ kind' = E.kind /\ call' = E @@ [last |-> [known |-> FALSE, en |-> {}]] /\ lb' = -1 /\ cnt' = None(n) /\ sig' = NoSig /\ held' = None(n) /\ mem' = {}
         /\ blk' = [b \in Names(n) |-> IF b \in Set(E.good) THEN cur[b] ELSE IF b \in Set(E.blocks) THEN -1 ELSE 0]
         /\ disk' = [i \in 0..(n - 1) |-> TRUE] /\ UNCHANGED <<n, cur, judge, exact>>
\* ---- blocks on disk and in memory
TRead == /\ IsEvent("read") /\ E.b \in Names(n) /\ (Fresh(E.b) => E.ok)
         /\ (Blocks => E.ok)                                                                       \* never a block of another state
         /\ held' = [held EXCEPT ![E.b] = IF E.ok THEN cur[E.b] ELSE -1] /\ cnt' = [cnt EXCEPT ![E.b] = @ + 1]
         /\ lb' = (IF lb = -1 /\ \E k \in 0..(n - 1) : E.b = L(k) THEN CHOOSE k \in 0..(n - 1) : E.b = L(k) ELSE lb)
         /\ UNCHANGED <<n, kind, cur, blk, disk, mem, judge, exact, call, sig>>
TWrote == /\ IsEvent("wrote") /\ E.b \in Names(n) /\ (Blocks => E.ok)
          /\ blk' = [blk EXCEPT ![E.b] = IF E.ok THEN cur[E.b] ELSE -1]
          /\ held' = [held EXCEPT ![E.b] = IF E.ok THEN cur[E.b] ELSE -1] /\ UNCHANGED <<n, kind, cur, disk, mem, judge, exact, call, lb, cnt>>
          /\ sig' = [sig EXCEPT !.closed = IF lb # -1 /\ E.b = SweepEnd THEN @ + 1 ELSE @]
TRemove == IsEvent("remove") /\ E.b \in Names(n) /\ blk' = [blk EXCEPT ![E.b] = 0] /\ (sig.e # -1 /\ lb # -1 => sig.e > 0)
           /\ sig' = [sig EXCEPT !.e = IF @ > 0 /\ lb # -1 THEN @ - 1 ELSE @] /\ UNCHANGED <<n, kind, cur, held, disk, mem, judge, exact, call, lb, cnt>>
\* ---- a tensor is multiplied by the noise: every step changes it by one factor at most, and some steps do not use it; a step
\* reads a block
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN cnt[b] + Sum(S \ {b})
TNoise == /\ IsEvent("noise") /\ call.alg # "" /\ kind # "pair" /\ lb # -1
          /\ LET q == call.plan  s == SweepNow  f == From(q, sig.nz, s)  all == Sum(Names(n))  d == all - sig.nz.reads IN
             /\ Within(q, f, E, d)
             /\ sig' = [sig EXCEPT !.nz = [j |-> E.j, k |-> E.k, v |-> E.v, at |-> s, seen |-> @.seen \cup {s}, reads |-> all]]
          /\ UNCHANGED <<svars, judge, exact, call, lb, cnt>>
\* a single-site sweep with noise uses it
EndNoise == kind = "single" /\ call.plan.told /\ sig.nz.seen # {} => \A k \in 1..SweepNow : call.plan.v[Least(k, Len(call.plan.v))] > 0 => k \in sig.nz.seen
TOther == IsEvent("other") /\ UNCHANGED <<svars, judge, exact, call, lb, cnt, sig>>
\* ---- tensors on disk
TMread == IsEvent("mread") /\ E.s \in 0..(n - 1) /\ disk[E.s] /\ mem' = mem \cup {E.s} /\ UNCHANGED <<n, kind, cur, blk, held, disk, judge, exact, call, lb, cnt, sig>>
TMwrite == IsEvent("mwrite") /\ E.s \in 0..(n - 1) /\ disk' = [disk EXCEPT ![E.s] = TRUE] /\ UNCHANGED <<n, kind, cur, blk, held, mem, judge, exact, call, lb, cnt, sig>>
TMremove == IsEvent("mremove") /\ UNCHANGED <<svars, judge, exact, call, lb, cnt, sig>>
\* ---- stop requests: the sweep under way is the last one (one more may begin when it had just ended); an emergency allows one more step
MinOf(a, b) == IF a < b THEN a ELSE b
TSignal == /\ IsEvent("signal") /\ call.alg # ""
           /\ LET k == SweepNow  most == IF k = 0 THEN 1 ELSE IF sig.closed >= k THEN k + 1 ELSE k
                  least == IF k = 0 THEN 1 ELSE k IN
              sig' = [sig EXCEPT !.lo = IF @ = -1 THEN least ELSE @, !.hi = IF @ = -1 THEN most ELSE @,
                                 !.e = IF E.now /\ @ = -1 THEN 1 ELSE @]
           /\ UNCHANGED <<svars, judge, exact, call, lb, cnt>>
TIdle == IsEvent("idle") /\ call.alg = "" /\ UNCHANGED <<svars, judge, exact, call, lb, cnt, sig>>
\* ---- the chain changes on the sites S
Touches(b, S) == SitesOf(n, b) \cap S # {}
Centred == \E c \in Set(call.centres) : c <= (IF kind = "pair" THEN 1 ELSE IF kind = "single" THEN 0 ELSE lb + 1)
\* the candidate x is an update of the sites x.t.. with the blocks around them at hand
Supplied(x) == \A b \in (IF kind = "single" THEN One(x.t) ELSE Pair(x.t)) : Ready(b)
Solved(x) == /\ (Centred => x.ortho)
             /\ E.en >= exact - Tol
             /\ (Centred => E.en >= x.emin - Tol)
             /\ (call.full /\ Centred => E.en <= E.en0 + Tol /\ (x.reach => Near(E.en, x.emin)))
             /\ (~call.full /\ Centred /\ x.reach /\ x.distinct /\ ~Noisy(SweepNow) => x.fid >= 1000000 - (IF call.terr > x.lost THEN call.terr ELSE x.lost) - Tol)
\* what a sweep leaves alone cannot limit it: every state of the sector stays within reach of the sites it changes
Skipped == {i \in 1..(n - 1) : i <= lb \/ (SweepNow > 1 /\ \A k \in 0..(n - 1) : cnt[R(k)] > 0 => i >= n - k)}
TUpd == /\ IsEvent("upd")
        /\ LET S == Set(E.s)  V == Set(E.valid)
               T == {b \in Names(n) : Touches(b, S) /\ b \notin V} IN
           /\ Bump(T)
           /\ (\A b \in Files : Fresh(b) /\ ~Touches(b, S) => b \in V)
           /\ blk' = [b \in Names(n) |-> IF b \in V THEN cur'[b] ELSE blk[b]] /\ UNCHANGED held
           /\ disk' = [i \in 0..(n - 1) |-> IF i \in S THEN FALSE ELSE disk[i]]
           /\ E.charge
           /\ IF E.gauge THEN TRUE
              ELSE /\ lb # -1                                                                      \* only a sweep changes the state
                   /\ (Blocks => \E i \in 1..Len(E.x.c) : Supplied(E.x.c[i]))
                   /\ (Values => \E i \in 1..Len(E.x.c) : (Blocks => Supplied(E.x.c[i])) /\ Solved(E.x.c[i]))
        /\ (Values /\ ~E.gauge /\ kind = "bound" /\ lb # -1 => \A i \in Skipped : E.bonds[i] >= call.room[i])
        /\ (Values /\ kind = "single" /\ lb # -1 /\ ~Noisy(SweepNow) => \A i \in 1..(n - 1) : E.bonds[i] <= call.bonds[i] \/ AnyNoise)
        /\ call' = IF E.gauge \/ call.alg = "" THEN call ELSE [call EXCEPT !.last = [known |-> Len(E.x.c) > 0 /\ (\A i \in 1..Len(E.x.c) : E.x.c[i].reach), en |-> {E.x.c[i].emin : i \in 1..Len(E.x.c)}]]
        /\ UNCHANGED <<n, kind, mem, judge, exact, lb, cnt, sig>>
\* ---- the end of a call
Centre == IF kind = "pair" THEN 1 ELSE IF kind = "single" \/ call.alg \in {"dmrg", "mdmrg", "mnoise"} THEN 0 ELSE lb + 1
EndStored == /\ E.out = "ok" /\ E.whole /\ (call.alg \notin {"dmrg", "mdmrg", "mnoise"} => E.empty) /\ (\A i \in 0..(n - 1) : disk[i])
             /\ (sig.e = -1 => Centre \in Set(E.centres))
Rights == {k \in 0..(n - 1) : R(k) \in Set(E.files)}
EndFiles == /\ \A b \in Names(n) : (b \in Set(E.good)) => (b \in Set(E.files))
            /\ IF kind = "bound"
               THEN /\ (IF Unseen THEN TRUE ELSE R(n - 2 - lb) \in Set(E.good)) /\ \A k \in Rights : R(k) \in Set(E.good)
                    /\ \A k \in 0..(IF Unseen THEN -1 ELSE n - 2 - lb) : cnt[R(k)] > 0 => R(k) \in Set(E.good)
               ELSE Set(E.files) = Needed(0, n - 1) /\ Set(E.good) = Needed(0, n - 1)
\* every sweep uses every block of its range once
Made == SweepNow
EndCounts == IF sig.e # -1 \/ Unseen THEN TRUE ELSE
             /\ IF sig.lo = -1 THEN Made = call.sweeps ELSE Made >= MinOf(sig.lo, call.sweeps) /\ Made <= MinOf(sig.hi, call.sweeps)
             /\ \E a \in 0..(IF kind = "bound" THEN n - 2 - lb ELSE 0) :
                \A k \in 0..(n - 1) : cnt[R(k)] = (IF k >= a /\ k <= (IF kind = "bound" THEN n - 2 - lb ELSE Inner) THEN Made ELSE 0)
EndValues == /\ \A i \in 1..(n - 1) : E.bonds[i] <= call.dmax \/ (kind = "single" /\ E.bonds[i] <= call.bonds[i])
             /\ E.charge
             /\ E.en >= exact - Tol /\ (Centred => E.ret >= exact - Tol)
             /\ (Centred /\ call.last.known => \E x \in call.last.en \cup {E.en} : Near(E.ret, x))             \* the energy of the last local problem
             /\ (call.full /\ Centred => Near(E.ret, E.en) /\ Near(E.norm, 1000000) /\ E.en <= call.en + Tol)
             /\ (kind = "single" /\ call.full /\ AnyNoise /\ (\A i \in 1..(n - 1) : call.bonds[i] = 1) /\ E.var > 10000 => \E i \in 1..(n - 1) : E.bonds[i] > 1)
TDone == /\ IsEvent("done") /\ call.alg # "" /\ (lb # -1 \/ Unseen) /\ E.out = "ok"
         /\ (judge # "C14" => EndStored /\ EndCounts /\ EndNoise) /\ (Blocks => EndFiles) /\ (Values \/ judge = "C17" => sig.e # -1 \/ EndValues)
         /\ call' = [alg |-> ""] /\ UNCHANGED <<svars, judge, exact, lb, cnt, sig>>
\* ---- the same optimisation along several histories, or by another algorithm
TSame == IsEvent("same") /\ call.alg = "" /\ (E.clear => \A i \in 1..Len(E.en) : Near(E.en[i], E.en[1]) /\ E.fid[i] >= 1000000 - 50)
         /\ UNCHANGED <<svars, judge, exact, call, lb, cnt, sig>>
TInit == l = 1 /\ n = 0 /\ kind = "pair" /\ cur = <<>> /\ blk = <<>> /\ held = <<>> /\ disk = <<>> /\ mem = {} /\ judge = "" /\ exact = 0
         /\ call = [alg |-> ""] /\ lb = -1 /\ cnt = <<>> /\ sig = NoSig
TNext == TNoise \/ TSignal \/ TIdle \/ TReset \/ TCall \/ TRead \/ TWrote \/ TRemove \/ TOther \/ TMread \/ TMwrite \/ TMremove \/ TUpd \/ TDone \/ TSame
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
================================================================================
