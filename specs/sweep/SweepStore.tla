------------------------------- MODULE SweepStore -------------------------------
(* Sweeping optimisation of a chain of n tensors that lives on disk, with the Hamiltonian's blocks of the outer sites stored  *)
(* next to it.  A block is named "l3" (the three leftmost sites) or "r2" (the two rightmost); its content is determined by    *)
(* the tensors of its sites, and cur[b] is the version of the content it should have now.  blk[b] is the version of the       *)
(* content of the file (0: no file), held[b] of the copy in memory (0: none).                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES n,      \* number of sites
          kind,   \* "pair": all neighbouring pairs; "bound": pairs between two boundary sites; "single": one site at a time
          cur, blk, held,
          disk,   \* site -> is the file of its tensor the tensor of the represented chain
          mem     \* sites held in memory
svars == <<n, kind, cur, blk, held, disk, mem>>
MAXN == 10
LName == [k \in 0..MAXN |-> "l" \o ToString(k)]
RName == [k \in 0..MAXN |-> "r" \o ToString(k)]
NameSets == [m \in 0..MAXN |-> {LName[k] : k \in 0..(m - 1)} \cup {RName[k] : k \in 0..(m - 1)}]
LSites == [m \in 0..MAXN |-> [b \in {LName[k] : k \in 0..(m - 1)} |-> LET k == CHOOSE k \in 0..(m - 1) : b = LName[k] IN 0..(k - 1)]]
RSites == [m \in 0..MAXN |-> [b \in {RName[k] : k \in 0..(m - 1)} |-> LET k == CHOOSE k \in 0..(m - 1) : b = RName[k] IN (m - k)..(m - 1)]]
L(k) == LName[k]
R(k) == RName[k]
Names(m) == NameSets[m]
SitesOf(m, b) == IF b \in DOMAIN LSites[m] THEN LSites[m][b] ELSE RSites[m][b]
None(m) == [b \in Names(m) |-> 0]
Fresh(b) == blk[b] = cur[b]
Ready(b) == held[b] = cur[b]
Files == {b \in Names(n) : blk[b] # 0}
(* ---- what changing tensors does to the contents *)
MaxVer == LET S == {cur[b] : b \in Names(n)} IN CHOOSE x \in S : \A y \in S : y <= x
LeftOf(j) == {L(k) : k \in j..(n - 1)}             \* left blocks that contain site j - 1
RightOf(j) == {R(k) : k \in (n - j)..(n - 1)}      \* right blocks that contain site j
Bump(B) == cur' = [b \in Names(n) |-> IF b \in B THEN MaxVer + 1 ELSE cur[b]]
(* the state changes on sites i..j: every block that contains one of them changes *)
Changed(i, j) == LeftOf(i + 1) \cup RightOf(j)
(* the represented state stays, the bases of the bonds j \in J (between j - 1 and j) change *)
Regauged(J) == {L(j) : j \in J} \cup {R(n - j) : j \in J}
(* ---- what an update needs *)
Pair(p) == {L(p), R(n - 2 - p)}                    \* blocks around the sites p, p + 1
One(p) == {L(p), R(n - 1 - p)}                     \* blocks around the site p
Around(p) == IF kind = "single" THEN One(p) ELSE Pair(p)
Span(p) == IF kind = "single" THEN {p} ELSE {p, p + 1}
(* blocks from which a run over the sites lo..hi starts *)
Needed(lo, hi) == {L(lo)} \cup {R(k) : k \in (n - 1 - hi)..(IF kind = "single" THEN n - 1 - lo ELSE n - 2 - lo)}
================================================================================
