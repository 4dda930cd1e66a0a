--------------------------------- MODULE MCSweep --------------------------------
(* The schedule of the optimisers over SweepStore: a history of runs, each with a number of sweeps, the runtime directory     *)
(* kept or removed before it, and (for runs between boundaries) a size of the bonds that moves the boundaries.                *)
EXTENDS SweepStore, Json
CONSTANTS KINDS, SIZES, MAXRUNS, MAXSWEEPS, LENS
VARIABLES pc, lo, hi, p, dir, left, prog
vars == <<svars, pc, lo, hi, p, dir, left, prog>>
View == <<n, kind, blk, held, cur, disk, mem, pc, lo, hi, p, dir, left, Len(prog)>>
Lmid == IF n % 2 = 0 THEN n \div 2 - 1 ELSE n \div 2
Rmid == n \div 2
LoOf(s) == IF kind # "bound" THEN 0 ELSE IF s < Lmid - 1 THEN s ELSE Lmid - 1
HiOf(s) == IF kind # "bound" THEN n - 1 ELSE IF n - 1 - s > Rmid + 1 THEN n - 1 - s ELSE Rmid + 1
Init == /\ n \in LENS /\ kind \in KINDS /\ cur = [b \in Names(n) |-> 1] /\ blk = None(n) /\ held = None(n)
        /\ disk = [i \in 0..(n - 1) |-> TRUE] /\ mem = {} /\ pc = "idle" /\ lo = 0 /\ hi = 0 /\ p = 0 /\ dir = "r" /\ left = 0 /\ prog = <<>>
(* ---- start of a run *)
Prepare(keep, s) ==
  LET a == LoOf(s)  z == HiOf(s)
      J == IF kind = "bound" THEN (1..(a + 1)) \cup (z..(n - 1)) ELSE {}
      c1 == [b \in Names(n) |-> IF b \in Regauged(J) THEN MaxVer + 1 ELSE cur[b]]
      b0 == IF keep THEN blk ELSE None(n)
      range == {R(k) : k \in (n - 1 - z)..(n - 2 - a)}
      build == IF kind = "bound" THEN \E b \in range : b0[b] = 0 ELSE \A b \in Names(n) : b0[b] = 0
      b1 == IF build THEN [b \in Names(n) |-> IF b \in {R(k) : k \in 0..(IF kind = "single" THEN n - 1 ELSE n - 2 - a)} \cup (IF a = 0 \/ kind # "bound" THEN {L(0)} ELSE {}) THEN c1[b] ELSE b0[b]] ELSE b0
      b2 == IF kind = "bound" THEN [b \in Names(n) |-> IF b \in {L(a), R(n - 1 - z), R(n - z)} THEN c1[b]
                                                      ELSE IF b \in {R(k) : k \in 0..(n - 1)} \ range THEN 0 ELSE b1[b]] ELSE b1   \* outdated right blocks are dropped
  IN /\ lo' = a /\ hi' = z /\ cur' = c1 /\ blk' = b2 /\ held' = None(n) /\ p' = a /\ dir' = "r" /\ pc' = "load"
     /\ mem' = (IF kind = "single" THEN {0} ELSE {a + 1}) /\ UNCHANGED disk
MBegin(keep, s, k) == /\ pc = "idle" /\ Len(prog) < MAXRUNS /\ (Len(prog) = 0 => ~keep) /\ Prepare(keep, s)
                      /\ left' = k /\ prog' = Append(prog, <<k, IF keep THEN 1 ELSE 0, s>>) /\ UNCHANGED <<n, kind>>
(* ---- one step: load, update, dump *)
Other == IF dir = "r" THEN (IF kind = "single" THEN p + 1 ELSE IF p = lo THEN p ELSE p + 1)        \* the site to load
         ELSE IF kind = "single" THEN p - 1 ELSE IF p + 1 = hi THEN p + 1 ELSE p
InR == R(IF kind = "single" THEN n - 1 - p ELSE n - 2 - p)
InL == L(p)
MLoad ==
  /\ pc = "load" /\ mem' = mem \cup {Other} /\ pc' = "update"
  /\ LET rd == (IF dir = "r" THEN {InR} \cup (IF p = lo THEN {InL} ELSE {}) ELSE {InL} \cup (IF (IF kind = "single" THEN p ELSE p + 1) = hi THEN {InR} ELSE {}))
         gone == IF dir = "r" THEN {InR} ELSE {InL}
     IN /\ held' = [b \in Names(n) |-> IF b \in rd /\ blk[b] # 0 THEN blk[b] ELSE held[b]]
        /\ blk' = [b \in Names(n) |-> IF b \in gone THEN 0 ELSE blk[b]]
  /\ UNCHANGED <<n, kind, cur, disk, lo, hi, p, dir, left, prog>>
MUpdate ==
  /\ pc = "update" /\ pc' = "dump"
  /\ LET i == IF kind = "single" /\ dir = "l" THEN p - 1 ELSE p  j == i + 1
         w == IF dir = "r" THEN L(p + 1) ELSE R(n - (IF kind = "single" THEN p ELSE p + 1))
     IN /\ Bump(Changed(i, j)) /\ disk' = [k \in 0..(n - 1) |-> IF k \in {i, j} THEN FALSE ELSE disk[k]]
        /\ held' = [b \in Names(n) |-> IF b = w THEN (IF \A x \in Around(p) : Ready(x) THEN MaxVer + 1 ELSE MaxVer + 2) ELSE held[b]]   \* wrong when built from a wrong one
  /\ UNCHANGED <<n, kind, blk, mem, lo, hi, p, dir, left, prog>>
Last == IF dir = "r" THEN (IF kind = "single" THEN p = hi - 1 ELSE p = hi - 2) ELSE (IF kind = "single" THEN p = 1 ELSE p = lo + 1)
MDump ==
  /\ pc = "dump"
  /\ LET w == IF dir = "r" THEN L(p + 1) ELSE R(n - (IF kind = "single" THEN p ELSE p + 1))
         out == IF kind = "single" \/ dir = "r" THEN p ELSE p + 1
     IN /\ blk' = [b \in Names(n) |-> IF b = w THEN held[b] ELSE blk[b]] /\ mem' = mem \ {out} /\ disk' = [disk EXCEPT ![out] = TRUE]
        /\ held' = [b \in Names(n) |-> IF b = w THEN held[b] ELSE 0]
  /\ IF ~Last THEN pc' = "load" /\ p' = (IF dir = "r" THEN p + 1 ELSE p - 1) /\ UNCHANGED <<dir, left>>
     ELSE IF dir = "r" THEN pc' = "load" /\ dir' = "l" /\ p' = (IF kind = "single" THEN hi ELSE hi - 1) /\ UNCHANGED left
     ELSE IF left > 1 THEN pc' = "load" /\ dir' = "r" /\ p' = lo /\ left' = left - 1
     ELSE pc' = "end" /\ left' = 0 /\ UNCHANGED <<p, dir>>
  /\ UNCHANGED <<n, kind, cur, lo, hi, prog>>
(* ---- end of a run: the last tensor goes to disk, the centre is moved to its place *)
MEnd == /\ pc = "end" /\ pc' = "idle" /\ mem' = {} /\ held' = None(n)
        /\ disk' = [i \in 0..(n - 1) |-> IF i \in mem THEN TRUE ELSE disk[i]]
        /\ (IF kind = "bound" THEN Bump(Regauged(1..(lo + 1))) /\ blk' = [b \in Names(n) |-> IF b = L(lo) /\ Fresh(b) THEN cur'[b] ELSE blk[b]] ELSE UNCHANGED <<cur, blk>>)
        /\ UNCHANGED <<n, kind, lo, hi, p, dir, left, prog>>
Start == \E keep \in BOOLEAN, s \in SIZES, k \in 1..MAXSWEEPS : MBegin(keep, s, k)
Next == Start \/ MLoad \/ MUpdate \/ MDump \/ MEnd
Spec == Init /\ [][Next]_vars
(* ---- properties *)
CurrentOnly == pc = "update" => \A b \in Around(p) : Ready(b)
InMemory == pc = "update" => Span(p) \subseteq mem
Elsewhere == \A i \in 0..(n - 1) : i \in mem \/ disk[i]
AllStored == pc = "idle" => mem = {} /\ \A i \in 0..(n - 1) : disk[i]
Reusable == pc = "idle" /\ Len(prog) > 0 => (\A b \in Needed(lo, hi) \ {L(lo)} : Fresh(b)) /\ (\A k \in 0..(n - 1) : R(k) \in Files => Fresh(R(k)))
Exact == pc = "idle" /\ Len(prog) > 0 /\ kind # "bound" => Files = Needed(lo, hi) /\ \A b \in Files : Fresh(b)
NeverLost == pc = "load" => LET b == IF dir = "r" THEN InR ELSE InL IN blk[b] # 0
Safe == CurrentOnly /\ InMemory /\ Elsewhere /\ AllStored /\ Reusable /\ Exact /\ NeverLost
Export == prog' # prog /\ Len(prog') = MAXRUNS => PrintT("EXPORT " \o ToJson([kind |-> kind, n |-> n, prog |-> prog']))
================================================================================
