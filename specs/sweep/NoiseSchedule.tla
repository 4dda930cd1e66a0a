------------------------------ MODULE NoiseSchedule ------------------------------
(* The noise of a run: listed values start a sweep each, the value reached goes on after the last of them.  Within a sweep a   *)
(* step may lower or raise it.  A value is the family it belongs to (j: place in the list, 0: the cap) and a power of the rate  *)
(* (k), with v its size in units of 1e-9.                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets
\* a plan: list of values (v), rate of change (1 or 2), down: it can only be lowered, cap
None0 == [j |-> 0, k |-> 0, v |-> 0, at |-> 0, seen |-> {}, reads |-> 0]
Least(a, b) == IF a < b THEN a ELSE b
Preset(p, s) == LET i == Least(s, Len(p.v)) IN [j |-> i, k |-> 0, v |-> p.v[i]]
Half(v) == v \div 2
\* what a value can become at a step
Grown(p, x) == IF x.v >= p.cap \div p.rate THEN [j |-> 0, k |-> 0, v |-> p.cap] ELSE [x EXCEPT !.k = @ + p.rate - 1, !.v = @ * p.rate]
Lowered(p, x) == [x EXCEPT !.k = @ - (p.rate - 1), !.v = IF p.rate = 1 THEN @ ELSE Half(@)]
Steps(p, x) == {x, Lowered(p, x)} \cup (IF p.down THEN {} ELSE {Grown(p, x)})
\* the value a sweep starts with, given the last one that was used
From(p, z, s) == IF z.at = s THEN [j |-> z.j, k |-> z.k, v |-> z.v]
                 ELSE IF s <= Len(p.v) \/ z.at < Len(p.v) THEN Preset(p, s) ELSE [j |-> z.j, k |-> z.k, v |-> z.v]
Same(x, y) == x.j = y.j /\ x.k = y.k
\* what it can become within d steps (some of them unseen)
Within(p, x, y, d) == /\ (IF y.j = x.j THEN TRUE ELSE ~p.down /\ y.j = 0)
                      /\ (p.rate = 1 => y.k = 0) /\ (p.down => y.k <= x.k) /\ (y.j = x.j => y.k >= x.k - d /\ (y.j > 0 => y.k <= x.k + d)) /\ (y.j = 0 => y.k <= 0)
                      /\ (p.rate = 2 /\ y.j = x.j /\ y.k > x.k => y.v <= p.cap + 1)
Zero(p, z, s) == From(p, z, s).v = 0
=================================================================================
