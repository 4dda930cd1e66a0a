------------------------------ MODULE StatePrep --------------------------------
(* C10. States as finite maps from configuration numbers to <<re, im>> (site 0 is the most significant digit). Truncation of   *)
(* a bond is modelled for states whose matrix across every bond splits into blocks of rank one: each block is one Schmidt      *)
(* vector with its exact weight, and discarding it removes the configurations of the block.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES dims, psi
Len0 == Len(dims)
RECURSIVE Prod(_, _)
Prod(i, j) == IF i > j THEN 1 ELSE dims[i] * Prod(i + 1, j)
RECURSIVE NumberTo(_, _, _)
NumberTo(lab, i, acc) == IF i > Len(lab) THEN acc ELSE NumberTo(lab, i + 1, acc * dims[i] + lab[i])
Number(lab) == NumberTo(lab, 1, 0)
Labels(lab) == Len(lab) = Len0 /\ \A i \in 1..Len0 : lab[i] \in 0..(dims[i] - 1)
Basis(lab) == Number(lab) :> <<1, 0>>
Amp(v, x) == IF x \in DOMAIN v THEN v[x] ELSE <<0, 0>>
Plus(v, u) == LET s == [x \in DOMAIN v \cup DOMAIN u |-> <<Amp(v, x)[1] + Amp(u, x)[1], Amp(v, x)[2] + Amp(u, x)[2]>>]
              IN TLCEval([x \in {y \in DOMAIN s : s[y] # <<0, 0>>} |-> s[x]])
(* ---- Schmidt blocks of the configurations S across the bond right of site b (1-based) ---- *)
Row(x, b) == x \div Prod(b + 1, Len0)
Col(x, b) == x % Prod(b + 1, Len0)
Block(S, b, x) == LET cols == {Col(y, b) : y \in {z \in S : Row(z, b) = Row(x, b)}} IN {z \in S : Col(z, b) \in cols}
Blocks(S, b) == {Block(S, b, x) : x \in S}
Mul(p, q) == <<p[1] * q[1] - p[2] * q[2], p[1] * q[2] + p[2] * q[1]>>
RankOne(v, B, b) == /\ Cardinality(B) = Cardinality({Row(x, b) : x \in B}) * Cardinality({Col(x, b) : x \in B})
                    /\ \A x, y \in B : \A z, w \in B : Row(z, b) = Row(x, b) /\ Col(z, b) = Col(y, b) /\ Row(w, b) = Row(y, b) /\ Col(w, b) = Col(x, b)
                                         => Mul(v[x], v[y]) = Mul(v[z], v[w])
Splits(v, S, b) == LET bs == Blocks(S, b) IN /\ \A B \in bs : RankOne(v, B, b)
                                             /\ \A B, D \in bs : B # D => B \cap D = {} /\ {Row(x, b) : x \in B} \cap {Row(x, b) : x \in D} = {}
RECURSIVE WeightOf(_, _)
WeightOf(v, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN v[x][1] * v[x][1] + v[x][2] * v[x][2] + WeightOf(v, S \ {x})
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
(* kept sets of k blocks: the heaviest, any choice among equals *)
Choices(v, S, b, k) ==
  LET bs == Blocks(S, b) wt == TLCEval([B \in bs |-> WeightOf(v, B)])
      above(t) == {B \in bs : wt[B] > t}  from(t) == {B \in bs : wt[B] >= t}
      t == CHOOSE t \in {wt[B] : B \in bs} : Cardinality(above(t)) < k /\ k <= Cardinality(from(t))
  IN IF k >= Cardinality(bs) THEN {S}
     ELSE {UNION (above(t) \cup c) : c \in {c \in SUBSET (from(t) \ above(t)) : Cardinality(c) = k - Cardinality(above(t))}}
Lightest(v, S, b) == LET ws == {WeightOf(v, B) : B \in Blocks(S, b)} IN CHOOSE w \in ws : \A u \in ws : w <= u
(* a bond dimension d with kept set R is what limits (dmax, dmin, err/1000) allow *)
Allowed(v, S, R, b, d, dmax, dmin, err) ==
  LET r == Cardinality(Blocks(S, b)) all == WeightOf(v, S) kept == WeightOf(v, R) IN
  /\ d \in 1..dmax /\ d >= Min2(dmin, r)
  /\ (d < dmax /\ d < r => (all - kept) * 1000 <= err * all)                                   \* no more than asked is discarded
  /\ (d <= r /\ d > dmin /\ d > 1 => (all - kept + Lightest(v, R, b)) * 1000 >= err * all)     \* and no less
Trunc(v, S, b, d, dmax, dmin, err) == {R \in Choices(v, S, b, d) : Allowed(v, S, R, b, d, dmax, dmin, err)}
Restrict(v, S) == TLCEval([x \in S |-> v[x]])
================================================================================
