--------------------------------- MODULE MCTdvp ---------------------------------
(* Time evolution over SweepStore: a history of calls, each of which applies an operator, moves the centre to the first site, *)
(* builds the blocks, measures, and makes steps; a step is a symmetric product of forward evolutions of pairs and backward    *)
(* evolutions of the sites between them.  Times are counted in half steps.                                                    *)
EXTENDS SweepStore, Json
CONSTANTS LENS, MAXCALLS, MAXSTEPS
VARIABLES pc, p, dir, left,
          centre,    \* where the orthogonality centre of the chain on disk is
          ref,       \* which state the stored reference is: version of the state, 0: none
          now,       \* version of the state represented on disk
          clock,     \* half steps made since the reference was written, per call
          fwd, bwd,  \* half steps made forward on the pair p, p + 1 and backward on the site p within the step
          ops,       \* operations of the step, in order
          corr,      \* measurements of this call: the number of half steps at each
          steps, prog
vars == <<svars, pc, p, dir, left, centre, ref, now, clock, fwd, bwd, ops, corr, steps, prog>>
Zero(S) == [i \in S |-> 0]
Init == /\ n \in LENS /\ kind = "pair" /\ cur = [b \in Names(n) |-> 1] /\ blk = None(n) /\ held = None(n)
        /\ disk = [i \in 0..(n - 1) |-> TRUE] /\ mem = {} /\ pc = "idle" /\ p = 0 /\ dir = "r" /\ left = 0 /\ centre = 0 /\ ref = 0 /\ now = 1 /\ clock = 0
        /\ fwd = Zero(0..(n - 2)) /\ bwd = Zero(1..(n - 2)) /\ ops = <<>> /\ corr = <<>> /\ steps = 0 /\ prog = <<>>
(* ---- a call: the state on disk becomes the reference unless there is one, the operator acts, the chain is brought into form *)
MBegin(s, k, keep) ==
  /\ pc = "idle" /\ Len(prog) < MAXCALLS /\ centre <= s
  /\ ref' = (IF keep /\ ref # 0 THEN ref ELSE now) /\ now' = now + 1 /\ clock' = 0 /\ corr' = <<>>
  /\ cur' = [b \in Names(n) |-> MaxVer + 1]
  /\ blk' = [b \in Names(n) |-> IF b \in {R(j) : j \in 0..(n - 1)} \cup {L(0)} THEN MaxVer + 1 ELSE blk[b]]
  /\ centre' = 0 /\ steps' = k /\ left' = k /\ pc' = "measure" /\ held' = None(n) /\ mem' = {}
  /\ prog' = Append(prog, <<s, k, IF keep THEN 1 ELSE 0>>) /\ UNCHANGED <<n, kind, disk, p, dir, fwd, bwd, ops>>
Measure == /\ pc = "measure" /\ mem = {} /\ corr' = Append(corr, clock)
           /\ pc' = (IF left = 0 THEN "idle" ELSE "load") /\ p' = 0 /\ dir' = "r" /\ mem' = (IF left = 0 THEN {} ELSE {1})
           /\ fwd' = Zero(0..(n - 2)) /\ bwd' = Zero(1..(n - 2)) /\ ops' = <<>> /\ UNCHANGED <<n, kind, cur, blk, held, disk, left, centre, ref, now, clock, steps, prog>>
(* ---- one position of a sweep: the pair p, p + 1; "close": the first pair, a second time *)
Other == IF dir = "r" THEN (IF p = 0 THEN 0 ELSE p + 1) ELSE IF p = n - 2 THEN n - 1 ELSE p
InR == R(n - 2 - p)
InL == L(p)
MLoad ==
  /\ pc = "load" /\ mem' = mem \cup {IF dir = "c" THEN 0 ELSE Other} /\ pc' = "forward"
  /\ LET rd == IF dir = "r" THEN {InR} \cup (IF p = 0 THEN {InL} ELSE {}) ELSE IF dir = "l" THEN {InL} \cup (IF p = n - 2 THEN {InR} ELSE {}) ELSE {InL}
         gone == IF dir = "r" THEN {InR} ELSE IF dir = "l" THEN {InL} ELSE {}
     IN /\ held' = [b \in Names(n) |-> IF b \in rd /\ held[b] = 0 THEN blk[b] ELSE held[b]] /\ blk' = [b \in Names(n) |-> IF b \in gone THEN 0 ELSE blk[b]]
  /\ UNCHANGED <<n, kind, cur, disk, p, dir, left, centre, ref, now, clock, fwd, bwd, ops, corr, steps, prog>>
Halves == IF dir = "l" /\ p = n - 2 THEN 2 ELSE 1
MForward ==
  /\ pc = "forward"
  /\ LET w == IF dir = "l" THEN R(n - 1 - p) ELSE L(p + 1) IN
     /\ Bump(Changed(p, p + 1)) /\ disk' = [k \in 0..(n - 1) |-> IF k \in {p, p + 1} THEN FALSE ELSE disk[k]]
     /\ held' = [b \in Names(n) |-> IF b = w THEN (IF \A x \in Pair(p) : Ready(x) THEN MaxVer + 1 ELSE MaxVer + 2) ELSE held[b]]
  /\ fwd' = [fwd EXCEPT ![p] = @ + Halves] /\ ops' = ops \o (IF dir = "c" THEN <<<<"F", p, 1>>, <<"W", 0, 0>>, <<"W", 1, 0>>>> ELSE <<<<"F", p, Halves>>, <<"W", IF dir = "r" THEN p ELSE p + 1, 0>>>>)
  /\ pc' = (IF dir = "c" THEN "close" ELSE "backward") /\ UNCHANGED <<n, kind, blk, mem, p, dir, left, centre, ref, now, clock, bwd, corr, steps, prog>>
Mid == IF dir = "r" THEN p + 1 ELSE p
MBackward ==
  /\ pc = "backward" /\ pc' = "dump" /\ Bump(Changed(Mid, Mid)) /\ disk' = [disk EXCEPT ![Mid] = FALSE]
  /\ bwd' = [bwd EXCEPT ![Mid] = @ + 1] /\ ops' = Append(ops, <<"B", Mid, 1>>)
  /\ UNCHANGED <<n, kind, blk, held, mem, p, dir, left, centre, ref, now, clock, fwd, corr, steps, prog>>
MDump ==
  /\ pc = "dump"
  /\ LET w == IF dir = "r" THEN L(p + 1) ELSE R(n - 1 - p)  out == IF dir = "r" THEN p ELSE p + 1
     IN /\ blk' = [b \in Names(n) |-> IF b = w THEN held[b] ELSE blk[b]] /\ mem' = mem \ {out} /\ disk' = [disk EXCEPT ![out] = TRUE]
        /\ held' = [b \in Names(n) |-> IF b = w THEN held[b] ELSE 0]
  /\ pc' = "load"
  /\ IF dir = "r" THEN (IF p = n - 3 THEN dir' = "l" /\ p' = n - 2 ELSE dir' = "r" /\ p' = p + 1)
     ELSE IF p = 1 THEN dir' = "c" /\ p' = 0 ELSE dir' = "l" /\ p' = p - 1
  /\ UNCHANGED <<n, kind, cur, left, centre, ref, now, clock, fwd, bwd, ops, corr, steps, prog>>
MClose == /\ pc = "close" /\ pc' = "measure" /\ mem' = {} /\ held' = None(n) /\ disk' = [i \in 0..(n - 1) |-> IF i \in mem THEN TRUE ELSE disk[i]]
          /\ left' = left - 1 /\ clock' = clock + 2 /\ now' = now + 1 /\ centre' = 1 /\ UNCHANGED <<n, kind, cur, blk, p, dir, ref, fwd, bwd, ops, corr, steps, prog>>
Start == \E s \in 0..(n - 1), k \in 0..MAXSTEPS, keep \in BOOLEAN : MBegin(s, k, keep)
Next == Start \/ Measure \/ MLoad \/ MForward \/ MBackward \/ MDump \/ MClose
Spec == Init /\ [][Next]_vars
(* ---- properties *)
PairReady == pc = "forward" => (\A b \in Pair(p) : Ready(b)) /\ {p, p + 1} \subseteq mem
SiteReady == pc = "backward" => (\A b \in One(Mid) : Ready(b)) /\ Mid \in mem
Elsewhere == \A i \in 0..(n - 1) : i \in mem \/ disk[i]
Measured == pc = "measure" => /\ mem = {} /\ (\A i \in 0..(n - 1) : disk[i]) /\ ref # 0
                              /\ (\A k \in 0..(n - 2) : Fresh(R(k))) /\ Fresh(L(0))
(* every pair moves forward by the whole step and every site between two pairs back by it, in an order that reads the same backwards *)
Moves == SelectSeq(ops, LAMBDA o : o[1] # "W")
Whole == pc = "measure" /\ clock > 0 => (\A i \in 0..(n - 2) : fwd[i] = 2) /\ (\A i \in 1..(n - 2) : bwd[i] = 2)
                                         /\ \A i \in 1..Len(Moves) : Moves[i] = Moves[Len(Moves) + 1 - i]
Clocked == pc = "idle" /\ Len(prog) > 0 => Len(corr) = steps + 1 /\ \A i \in 1..Len(corr) : corr[i] = 2 * (i - 1)
Order == pc = "close" => \A i \in 1..(Len(Moves) - 1) : Moves[i][1] # Moves[i + 1][1]
Safe == PairReady /\ SiteReady /\ Elsewhere /\ Measured /\ Whole /\ Clocked /\ Order
Export == /\ (prog' # prog /\ Len(prog') = MAXCALLS => PrintT("EXPORT " \o ToJson([n |-> n, prog |-> prog'])))
          /\ (pc = "close" /\ Len(prog) = 1 /\ left = 1 => PrintT("EXPORT " \o ToJson([n |-> n, plan |-> ops])))
================================================================================
