---------------------------- MODULE PeriodicChain ----------------------------
(* C06 as the user sees it: distinct finite-range terms are added to a unit cell of u sites; a generated cell of matrices   *)
(* must give, for every window of w cells, the sum of all translates of the terms that fit the window.                     *)
EXTENDS SymEval
VARIABLES u, pt, terms, raw
vars == <<u, pt, terms, raw>>
Init == u = 1 /\ pt = <<>> /\ terms = <<>> /\ raw = <<>>
Cell(n, cv, ov, ids) == u' = n /\ pt' = [cv |-> cv, ov |-> ov, id |-> ids] /\ terms' = <<>> /\ raw' = <<>>
Site(i) == (i % u) + 1                      \* 1-based position in the cell of the 0-based chain site i
IdVal(i) == pt.ov[Site(i)][pt.id[Site(i)] + 1]
Prod(f(_), a, b) == FoldLeft(LAMBDA acc, i : (acc * f(i)) % P, 1, [k \in 1..(b - a) |-> a + k - 1])
Translate(t, c, n) == LET a == c * u + t.h IN
  IF a + Len(t.o) > n THEN 0
  ELSE (((Prod(IdVal, 0, a) * Prod(LAMBDA i : OpVal(t.o[i - a + 1], pt.cv, pt.ov[Site(i)]), a, a + Len(t.o))) % P)
        * Prod(IdVal, a + Len(t.o), n)) % P
WindowSum(w) == FoldLeft(LAMBDA acc, t : FoldLeft(LAMBDA a2, c : (a2 + Translate(t, c - 1, w * u)) % P, acc, [c \in 1..w |-> c]), 0, terms)
Unit(n, s) == [i \in 1..n |-> IF i = s THEN 1 ELSE 0]
Window(ms, w, s) == FoldLeft(LAMBDA v, k : ChainVec(v, ms, pt.cv, pt.ov), Unit(ms[1].r, s), [k \in 1..w |-> k])
Periodic(ms) == Len(ms) = u /\ Chained(ms) /\ ms[u].c = ms[1].r /\ \A i \in 1..u : WellFormed(ms[i])
(* a head in a later cell names the same family of translates *)
Add(h, o) == terms' = Append(terms, [h |-> h % u, o |-> o]) /\ raw' = <<>> /\ UNCHANGED <<u, pt>>
(* some pair of states (one entry, one exit) carries the Hamiltonian for every window length *)
Carries(ms, W) ==
  LET sums == [w \in 1..W |-> WindowSum(w)]
      run == [s \in 1..ms[1].r |-> [w \in 1..W |-> Window(ms, w, s)]]
  IN \E s, d \in 1..ms[1].r : \A w \in 1..W : run[s][w][d] = sums[w]
GenRaw(ms, W) ==
  /\ Periodic(ms) /\ Carries(ms, W)
  /\ raw' = [i \in 1..u |-> ms[i].r]
  /\ UNCHANGED <<u, pt, terms>>
(* compression may rename states; no bond grows *)
GenComp(ms, W) ==
  /\ Periodic(ms) /\ Carries(ms, W)
  /\ raw # <<>> => \A i \in 1..u : ms[i].r <= raw[i]
  /\ UNCHANGED vars
==============================================================================
